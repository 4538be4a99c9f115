// Replaces the Python callbacks of a command-line simulator by entries in its log.
#define SCRIPT_DEFS
#include "sim_adapt.h"
void cliLog( const std::string& );
static struct Install { Install()
{
  script().startSim = []( State* s ) { cliLog( "S " + std::to_string( s ? long( s->q().size() ) : -1 ) ); };
  script().endSim = []( State* s ) { cliLog( "E " + std::to_string( s ? long( s->q().size() ) : -1 ) ); };
  script().start = []( State&, unsigned it, const Rat& dt ) { cliLog( "s " + std::to_string( it ) + " " + std::to_string( dt.numerator() ) + " " + std::to_string( dt.denominator() ) ); };
  script().end = []( State&, unsigned it, const Rat& dt ) { cliLog( "e " + std::to_string( it ) + " " + std::to_string( dt.numerator() ) + " " + std::to_string( dt.denominator() ) ); };
} } g_install;
