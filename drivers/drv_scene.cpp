// Random scene documents, whole or with one fault, given to the real scene parser.
//   drv_scene <plans.json> <seed> <times each plan> <plain documents> <out.ndjson>
#include "sim_adapt.h"
#include "view.h"
#include "scisim/ConstrainedMaps/Sobogus.h"
#include "scisim/ConstrainedMaps/GeometricImpactFrictionMap.h"
#include "scisim/ConstrainedMaps/StabilizedImpactFrictionMap.h"
#include "scisim/ConstrainedMaps/SymplecticEulerImpactFrictionMap.h"
#include "scisim/ConstrainedMaps/ImpulsesToCache.h"
#include "scisim/ConstrainedMaps/ConstrainedMapUtilities.h"
#include "scisim/ConstrainedMaps/ImpactMaps/ImpactMap.h"
#include "scisim/ConstrainedMaps/ImpactMaps/LCPOperatorAPGD.h"
#include "scisim/ConstrainedMaps/ImpactMaps/GROperator.h"
#include "scisim/ConstrainedMaps/ImpactMaps/GRROperator.h"
#include "scisim/ConstrainedMaps/ImpactMaps/JacobiOperator.h"
#include "scisim/ConstrainedMaps/ImpactMaps/GaussSeidelOperator.h"
#if WHICH == 1
#include "ball2dutils/Ball2DSceneParser.h"
static const char* const ROOT = "ball2d_scene";
#elif WHICH == 2
#include "rigidbody2dutils/RigidBody2DSceneParser.h"
#include "rigidbody2dutils/CameraSettings2D.h"
static const char* const ROOT = "rigidbody2d_scene";
#else
#include "rigidbody3dutils/RigidBody3DSceneParser.h"
#include "rigidbody3dutils/RenderingState.h"
static const char* const ROOT = "rigidbody3d_scene";
#endif
#include <sstream>
#include <fstream>
#include <algorithm>
#include <functional>
#include <cstring>
#include <sys/wait.h>
#include <unistd.h>
#include <boost/property_tree/json_parser.hpp>
using namespace vj;
namespace CMU = ConstrainedMapUtilities;
typedef std::string T;
struct At { T k, text; std::vector<double> v; std::vector<int> q; };
struct El { T tag; std::vector<At> at; std::vector<El> kids; };
typedef std::vector<El> Els;
static Rng* G;
static Rng& g() { return *G; }
static T fmt( const double d ) { char b[64]; const int k = g().i( 0, 4 ); std::snprintf( b, sizeof b, k == 0 ? "%.17g" : k == 1 ? "%.5g" : k == 2 ? "%.4e" : k == 3 ? "%.3f" : "%.17g", d ); return b; }
static double val( const double lo, const double hi ) { const double d = g().d( lo, hi ); return g().b( 0.5 ) ? std::floor( d * 8 + 0.5 ) / 8 : d; }
static At nums( const T& k, const std::vector<double>& d ) { At a; a.k = k; for( const double x : d ) { T s = fmt( x ); if( x > 0 && std::strtod( s.c_str(), nullptr ) <= 0 ) { char b[64]; std::snprintf( b, sizeof b, "%.17g", x ); s = b; } a.text += ( a.text.empty() ? "" : " " ) + s; a.v.push_back( std::strtod( s.c_str(), nullptr ) ); } return a; }
static At R( const T& k, const double lo, const double hi ) { return nums( k, { val( lo, hi ) } ); }
static At P( const T& k ) { return nums( k, { std::max( 0.125, val( 0.125, 4 ) ) } ); }
static At V( const T& k, const int n, const double w = 5 ) { std::vector<double> d; for( int i = 0; i < n; ++i ) d.push_back( val( -w, w ) ); return nums( k, d ); }
static At VP( const T& k, const int n ) { std::vector<double> d; for( int i = 0; i < n; ++i ) d.push_back( std::max( 0.125, val( 0.125, 3 ) ) ); return nums( k, d ); }
static At VN( const T& k, const int n ) { At a = V( k, n ); while( std::all_of( a.v.begin(), a.v.end(), []( double x ) { return std::fabs( x ) < 0.01; } ) ) a = V( k, n ); return a; }
static At I( const T& k, const int n ) { At a; a.k = k; a.text = std::to_string( n ); a.v.push_back( n ); return a; }
static At B( const T& k ) { return I( k, g().i( 0, 1 ) ); }
static At W( const T& k, const T& w ) { At a; a.k = k; a.text = w; return a; }
static T one( const std::vector<T>& w ) { return w[std::size_t( g().i( 0, int( w.size() ) - 1 ) )]; }
static At unit( const T& k ) { return g().b( 0.3 ) ? I( k, g().i( 0, 1 ) ) : nums( k, { val( 0, 1 ) } ); }
static At step( const T& k )
{
  At a; a.k = k; int n = g().i( 1, 9 ), d = 1; const int f = g().i( 0, 2 );
  if( f == 0 ) { d = g().i( 1, 200 ); a.text = std::to_string( n ) + "/" + std::to_string( d ); }
  else if( f == 1 ) { d = 100; a.text = "0.0" + std::to_string( n ); }
  else a.text = std::to_string( n );
  int x = n, y = d; while( y ) { const int r = x % y; x = y; y = r; } a.q = { n / x, d / x }; return a;
}
static const At* find( const El& e, const T& k ) { for( const At& a : e.at ) if( a.k == k ) return &a; return nullptr; }
static T atJson( const At& a ) { std::vector<T> v; for( const double d : a.v ) v.push_back( num( d ) ); std::vector<T> i, q; for( const double d : a.v ) i.push_back( num( d == std::floor( d ) && std::fabs( d ) < 1e6 ? int( d ) : -999999 ) ); for( const int x : a.q ) q.push_back( num( x ) ); return SubObj().raw( "v", arr( v ) ).raw( "i", arr( i ) ).raw( "q", arr( q ) ).t( "w", a.text ).done(); }
static T json( const Els& es ) { std::vector<T> r; for( const El& e : es ) { SubObj o; o.t( "t", e.tag ); SubObj at; for( const At& a : e.at ) at.raw( a.k.c_str(), atJson( a ) ); o.raw( "a", at.done() ).raw( "c", json( e.kids ) ); r.push_back( o.done() ); } return arr( r ); }
// ------------------------------------------------------------- descriptions of solvers and maps
typedef std::unique_ptr<ImpactOperator> Op;
struct Made { Op x; T p; bool plain; };       // plain: can be written out
static Made build( const El& e )
{
  const At* t = find( e, "type" ); const T type = t ? t->text : ""; const At* vt = find( e, "v_tol" ); const double tol = vt && vt->v.size() ? vt->v[0] : -1;
  auto kid = [&]( const T& k ) -> const El* { for( const El& c : e.kids ) if( c.tag == k ) return &c; return nullptr; };
  auto lcp = [&]() -> Made { const El* s = kid( "solver" ); if( !s ) return { Op(), "{\"k\":\"none\"}", false }; const At* a = find( *s, "tol" ); const At* b = find( *s, "max_iters" ); const At* nm = find( *s, "name" ); if( !a || !b || !nm || nm->text != "apgd" || a->v.size() != 1 || b->v.size() != 1 || a->v[0] <= 0 ) return { Op(), "{\"k\":\"none\"}", false }; return { Op( new LCPOperatorAPGD( a->v[0], unsigned( b->v[0] ) ) ), SubObj().t( "k", "lcp" ).n( "tol", a->v[0] ).n( "max", int( b->v[0] ) ).done(), true }; };
  const Made none{ Op(), "{\"k\":\"none\"}", false };
  if( type == "lcp" ) return lcp();
  if( ( type == "gauss_seidel" || type == "jacobi" || type == "gr" ) && tol < 0 ) return { Op(), none.p, false };
  if( type == "gauss_seidel" ) return { Op( new GaussSeidelOperator( tol ) ), SubObj().t( "k", "gauss_seidel" ).n( "tol", tol ).done(), true };
  if( type == "jacobi" ) return { Op( new JacobiOperator( tol ) ), SubObj().t( "k", "jacobi" ).n( "tol", tol ).done(), false };
  if( type == "gr" ) { Made i = lcp(); if( !i.x ) return i; return { Op( new GROperator( tol, *i.x ) ), SubObj().t( "k", "gr" ).n( "tol", tol ).raw( "in", i.p ).done(), true }; }
  if( type == "grr" ) { const El* a = kid( "elastic_operator" ); const El* b = kid( "inelastic_operator" ); if( !a || !b ) return { Op(), none.p, false }; Made x = build( *a ), y = build( *b ); if( !x.x || !y.x ) return { Op(), none.p, false }; return { Op( new GRROperator( *x.x, *y.x ) ), SubObj().t( "k", "grr" ).raw( "el", x.p ).raw( "in", y.p ).done(), x.plain && y.plain }; }
  return { Op(), none.p, false };
}
template<typename X> T bytes( const X& x ) { std::ostringstream o( std::ios::binary ); CMU::serialize( x, o ); return o.str(); }
static double d0( const El& e, const char* k ) { const At* a = find( e, k ); return a && a->v.size() == 1 ? a->v[0] : -1; }
static T w0( const El& e, const char* k ) { const At* a = find( e, k ); return a ? a->text : ""; }
// ------------------------------------------------------------- documents
static El solver() { El e{ "solver", { W( "name", "apgd" ), nums( "tol", { g().b() ? 1.0e-9 : 0.25 } ), I( "max_iters", g().i( 1, 60 ) ) }, {} }; return e; }
static El op( const T& tag, const bool top, const int depth )
{
  El e; e.tag = tag; const bool has = WHICH == 1; const T ty = one( has ? ( depth ? std::vector<T>{ "gauss_seidel", "jacobi", "lcp", "gr", "grr" } : std::vector<T>{ "gauss_seidel", "jacobi", "lcp", "gr" } ) : ( depth ? std::vector<T>{ "gauss_seidel", "jacobi", "grr" } : std::vector<T>{ "gauss_seidel", "jacobi" } ) );
  e.at.push_back( W( "type", ty ) ); if( top ) { e.at.push_back( unit( "CoR" ) ); if( WHICH != 3 ) e.at.push_back( B( "cache_impulses" ) ); }
  if( ty == "gauss_seidel" || ty == "jacobi" || ty == "gr" ) e.at.push_back( nums( "v_tol", { g().b( 0.2 ) ? 0.0 : g().b() ? 1.0e-6 : val( 0, 1 ) } ) );
  if( ty == "lcp" || ty == "gr" ) e.kids.push_back( solver() );
  if( ty == "grr" ) { e.kids.push_back( op( "elastic_operator", false, depth - 1 ) ); e.kids.push_back( op( "inelastic_operator", false, depth - 1 ) ); if( g().b() ) std::swap( e.kids[0], e.kids[1] ); }
  return e;
}
static El sobogus()
{
  const int mx = g().i( 1, 80 ); El e{ "sobogus_friction_solver", {}, {} };
  const T st = one( WHICH == 2 ? std::vector<T>{ "geometric", "stabilized" } : std::vector<T>{ "geometric", "stabilized", "symplectic_euler" } ); const bool se = st == "symplectic_euler";
  e.at = { nums( "mu", { g().b( 0.2 ) ? 0.0 : val( 0, 2 ) } ), se ? I( "CoR", 0 ) : unit( "CoR" ), I( "max_iters", mx ), I( "eval_every", g().b( 0.3 ) ? mx : g().i( 1, mx ) ), nums( "tol", { g().b( 0.3 ) ? 0.0 : 1.0e-6 } ), W( "staggering", st ) };
  if( WHICH != 3 || se || g().b( 0.3 ) ) e.at.push_back( W( "cache_impulses", st == "stabilized" ? T( "none" ) : one( { "none", "normal", "normal_and_friction" } ) ) );
  if( se ) { e.at.push_back( B( "stabilization" ) ); e.at.push_back( nums( "penetration_threshold", { g().b( 0.3 ) ? 0.0 : val( 0, 1 ) } ) ); }
  return e;
}
static void common( Els& d )
{
  if( g().b( 0.4 ) ) d.push_back( { "end_time", { P( "t" ) }, {} } );
  if( g().b( 0.3 ) ) d.push_back( { "scripting", { W( "callback", one( { "drop", "my_script", "a1" } ) ) }, {} } );
  const int k = g().i( 0, 4 ); if( k < 2 ) d.push_back( op( "impact_operator", true, 2 ) ); else if( k < 4 ) d.push_back( sobogus() );
}
static void cam( El& e ) { e.at.push_back( I( "fps", g().i( 1, 60 ) ) ); e.at.push_back( B( "render_at_fps" ) ); e.at.push_back( B( "locked" ) ); }
static void portals2( Els& d, const int np )
{
  std::vector<int> ix; for( int i = 0; i < np; ++i ) ix.push_back( i ); for( int i = np - 1; i > 0; --i ) std::swap( ix[std::size_t( i )], ix[std::size_t( g().i( 0, i ) )] );
  for( int k = 0; 2 * k + 1 < np; ++k ) if( g().b( 0.6 ) )
  {
    El e{ g().b() ? "planar_portal" : "lees_edwards_portal", { I( "planeA", ix[std::size_t( 2 * k )] ), I( "planeB", ix[std::size_t( 2 * k + 1 )] ) }, {} };
#if WHICH == 3
    e.tag = "planar_portal"; std::vector<double> m; for( int i = 0; i < 3; ++i ) m.push_back( g().b() ? 1 : -1 ); At a; a.k = "multiplier"; for( const double x : m ) { a.text += ( a.text.empty() ? "" : " " ) + std::to_string( int( x ) ); a.v.push_back( x ); } e.at.push_back( a );
#else
    if( e.tag == "lees_edwards_portal" ) { At v = R( "v", -2, 2 ); if( v.v[0] == 0.0 ) v = I( "v", 1 ); e.at.push_back( v ); e.at.push_back( P( "bounds" ) ); }
#endif
    d.push_back( e );
  }
}
static Els document()
{
  Els d; common( d ); const int nbod = g().i( 0, 3 ), np = g().i( 0, 5 );
#if WHICH == 1
  d.push_back( { "integrator", { W( "type", one( { "verlet", "symplectic_euler" } ) ), step( "dt" ) }, {} } );
  for( int i = 0; i < nbod; ++i ) d.push_back( { "ball", { R( "x", -5, 5 ), R( "y", -5, 5 ), R( "vx", -2, 2 ), R( "vy", -2, 2 ), P( "m" ), P( "r" ), B( "fixed" ) }, {} } );
  for( int i = g().i( 0, 2 ); i > 0; --i ) d.push_back( { "static_drum", { R( "x", -5, 5 ), R( "y", -5, 5 ), P( "r" ) }, {} } );
  for( int i = 0; i < np; ++i ) d.push_back( { "static_plane", { V( "x", 2 ), VN( "n", 2 ) }, {} } );
  for( int i = g().i( 0, 2 ); i > 0; --i ) d.push_back( { "gravity", { R( "fx", -9, 9 ), R( "fy", -9, 9 ) }, {} } );
  for( int i = g().i( 0, 2 ); i > 0; --i ) d.push_back( { "penalty", { P( "stiffness" ), nums( "potential_power", { 0.5 * g().i( 2, 7 ) } ) }, {} } );
  if( g().b( 0.4 ) ) { El e{ "camera", { R( "cx", -5, 5 ), R( "cy", -5, 5 ), P( "scale_factor" ) }, {} }; cam( e ); d.push_back( e ); }
  portals2( d, np );
#elif WHICH == 2
  if( g().b( 0.85 ) ) d.push_back( { "integrator", { W( "type", one( { "verlet", "symplectic_euler" } ) ), step( "dt" ) }, {} } );
  const int ng = g().i( 1, 4 ); for( int i = 0; i < ng; ++i ) { if( g().b() ) d.push_back( { "geometry", { W( "type", "circle" ), P( "r" ) }, {} } ); else d.push_back( { "geometry", { W( "type", "box" ), VP( "r", 2 ) }, {} } ); }
  for( int i = 0; i < nbod; ++i ) { El e{ "rigid_body", { V( "x", 2 ), R( "theta", -7, 7 ), V( "v", 2 ), R( "omega", -3, 3 ), P( "rho" ), I( "geo_idx", g().i( 0, ng - 1 ) ) }, {} }; if( g().b() ) e.at.push_back( B( "fixed" ) ); d.push_back( e ); }
  for( int i = 0; i < np; ++i ) d.push_back( { "static_plane", { V( "x", 2 ), VN( "n", 2 ) }, {} } );
  for( int i = g().i( 0, 2 ); i > 0; --i ) d.push_back( { "near_earth_gravity", { V( "f", 2 ) }, {} } );
  if( g().b( 0.4 ) ) { El e{ "camera", { V( "center", 2 ), P( "scale" ) }, {} }; cam( e ); d.push_back( e ); }
  portals2( d, np );
#else
  d.push_back( { "integrator", { W( "type", one( { "split_ham", "dmv", "exponential_euler" } ) ), step( "dt" ) }, {} } );
  const int ng = g().i( 1, 4 ); std::vector<bool> staple;
  for( int i = 0; i < ng; ++i ) { const int k = g().i( 0, 3 ); staple.push_back( k == 3 ); if( k == 0 ) d.push_back( { "geometry", { W( "type", "sphere" ), P( "r" ) }, {} } ); else if( k < 3 ) d.push_back( { "geometry", { W( "type", "box" ), VP( "r", 3 ) }, {} } ); else d.push_back( { "geometry", { W( "type", "staple" ), nums( "w", { val( 1, 3 ) } ), nums( "l", { val( 1, 3 ) } ), nums( "D", { val( 0.25, 0.75 ) } ) }, {} } ); }
  for( int i = 0; i < nbod; ++i )
  {
    const int gi = g().i( 0, ng - 1 ); El e{ "rigid_body_with_density", { V( "x", 3 ), V( "v", 3 ), V( "omega", 3 ), P( "rho" ), B( "fixed" ), I( "geo_idx", g().b( 0.3 ) ? gi - ng : gi ) }, {} };
    if( !staple[std::size_t( gi )] && g().b() ) e.at.push_back( g().b( 0.2 ) ? nums( "R", { 0, 0, 0 } ) : V( "R", 3, 3 ) ); d.push_back( e );
  }
  for( int i = 0; i < np; ++i ) { d.push_back( { "static_plane", { V( "x", 3 ), VN( "n", 3 ) }, {} } ); }
  const int nc = g().i( 0, 2 ); for( int i = 0; i < nc; ++i ) d.push_back( { "static_cylinder", { V( "x", 3 ), VN( "axis", 3 ), P( "R" ) }, {} } );
  for( int i = 0; i < nc; ++i ) if( g().b() ) d.push_back( { "static_cylinder_renderer", { I( "cylinder_idx", i ), P( "L" ) }, {} } );
  for( int i = 0; i < np; ++i ) if( g().b() ) d.push_back( { "static_plane_renderer", { I( "plane", i ), VP( "r", 2 ) }, {} } );
  for( int i = g().i( 0, 2 ); i > 0; --i ) d.push_back( { "near_earth_gravity", { V( "f", 3 ) }, {} } );
  if( g().b( 0.3 ) ) { El e{ "camera_perspective", { R( "theta", -3, 3 ), R( "phi", -3, 3 ), P( "rho" ), V( "lookat", 3 ), V( "up", 3 ) }, {} }; cam( e ); d.push_back( e ); }
  else if( g().b( 0.4 ) ) { El e{ "camera_orthographic", { W( "projection_plane", one( { "xy", "zy", "zx" } ) ), V( "x", 3 ), P( "scale" ) }, {} }; cam( e ); d.push_back( e ); }
  if( g().b( 0.4 ) ) { At lo = V( "min", 3 ); std::vector<double> hi; for( const double x : lo.v ) hi.push_back( x + std::max( 0.5, val( 0.5, 4 ) ) ); At h; do { h = nums( "max", hi ); } while( !( h.v[0] > lo.v[0] && h.v[1] > lo.v[1] && h.v[2] > lo.v[2] ) ); d.push_back( { "simulation_boundary", { W( "violation_behavior", one( { "none", "exit" } ) ), lo, h }, {} } ); }
  portals2( d, np );
#endif
  for( int i = int( d.size() ) - 1; i > 0; --i ) std::swap( d[std::size_t( i )], d[std::size_t( g().i( 0, i ) )] );
#if WHICH == 3
  // where a turned staple is placed is left open
  staple.clear(); for( const El& e : d ) if( e.tag == "geometry" ) staple.push_back( find( e, "D" ) != nullptr );
  for( El& e : d ) if( e.tag == "rigid_body_with_density" ) { int k = 0; for( const At& a : e.at ) if( a.k == "geo_idx" ) k = int( a.v[0] ); if( k < 0 ) k += ng; if( staple[std::size_t( k )] ) e.at.erase( std::remove_if( e.at.begin(), e.at.end(), []( const At& a ) { return a.k == "R"; } ), e.at.end() ); }
#endif
  return d;
}
static void walk( Els& es, const std::function<void( El& )>& f ) { for( El& e : es ) { f( e ); walk( e.kids, f ); } }
struct Plan { T tag, at, fault; };
static void apply( At& a, const T& f, Els& d )
{
  auto rebuild = [&]() { a.text.clear(); for( const double x : a.v ) { char b[64]; std::snprintf( b, sizeof b, "%.17g", x ); a.text += ( a.text.empty() ? "" : " " ) + T( b ); } };
  auto set = [&]( const double x ) { a.v = { x }; rebuild(); };
  const bool ratio = !a.q.empty();
  if( f == "empty" ) { a.v.clear(); a.q.clear(); a.text = ""; }
  else if( f == "junk" ) { a.v.clear(); a.q.clear(); a.text = one( { "abc", "x1", "?", "one" } ); }
  else if( f == "neg" && ratio ) { a.q[0] = -a.q[0]; a.text = "-" + a.text; }
  else if( f == "zero" && ratio ) { a.q = { 0, 1 }; a.text = "0"; }
  else if( f == "neg" ) set( -std::max( 1.0, std::fabs( a.v[0] ) ) );
  else if( f == "zero" ) set( 0 );
  else if( f == "two" ) set( 2 );
  else if( f == "short" ) { a.v.pop_back(); rebuild(); }
  else if( f == "long" ) { a.v.push_back( 1 ); rebuild(); }
  else if( f == "zeroall" ) { for( double& x : a.v ) x = 0; rebuild(); }
  else if( f == "zeroone" ) { a.v[std::size_t( g().i( 0, int( a.v.size() ) - 1 ) )] = 0; rebuild(); }
  else if( f == "negone" ) { double& x = a.v[std::size_t( g().i( 0, int( a.v.size() ) - 1 ) )]; x = -std::max( 1.0, x ); rebuild(); }
  else if( f == "twoone" ) { a.v[std::size_t( g().i( 0, int( a.v.size() ) - 1 ) )] = 2; rebuild(); }
  else if( f == "big" ) set( 1000 );
  else if( f == "low" ) set( -1000 );
  else if( f == "count" ) { const T of = a.k == "geo_idx" ? "geometry" : a.k == "cylinder_idx" ? "static_cylinder" : "static_plane"; set( double( std::count_if( d.begin(), d.end(), [&]( const El& e ) { return e.tag == of; } ) ) ); }
  else { std::fprintf( stderr, "fault %s?\n", f.c_str() ); std::exit( 4 ); }
}
static bool inflict( Els& d, const Plan& p, T& root, T& form )
{
  if( !p.at.empty() )
  {
    std::vector<El*> c; walk( d, [&]( El& e ) { if( e.tag == p.tag && find( e, p.at ) ) c.push_back( &e ); } ); if( c.empty() ) return false;
    El& e = *c[std::size_t( g().i( 0, int( c.size() ) - 1 ) )]; for( std::size_t i = 0; i < e.at.size(); ++i ) if( e.at[i].k == p.at ) { if( p.fault == "missing" ) { e.at.erase( e.at.begin() + long( i ) ); return true; } if( ( p.fault == "neg" || p.fault == "two" || p.fault == "big" || p.fault == "zero" ) && e.at[i].v.size() != 1 && e.at[i].q.empty() ) return false; if( ( p.fault == "zeroone" || p.fault == "negone" || p.fault == "short" || p.fault == "long" ) && e.at[i].v.size() < 2 ) return false; apply( e.at[i], p.fault, d ); return true; }
    return false;
  }
  if( p.fault == "root" ) { root = "scene"; return true; }
  if( p.fault == "form" ) { form = one( { "cut", "absent", "unclosed", "void" } ); return true; }
  if( p.fault == "gone" ) { const std::size_t n = d.size(); d.erase( std::remove_if( d.begin(), d.end(), [&]( const El& e ) { return e.tag == p.tag; } ), d.end() ); return d.size() != n; }
  if( p.fault == "childless" ) { std::vector<El*> c; walk( d, [&]( El& e ) { if( e.tag == p.tag && !e.kids.empty() ) c.push_back( &e ); } ); if( c.empty() ) return false; c[0]->kids.erase( c[0]->kids.begin() + g().i( 0, int( c[0]->kids.size() ) - 1 ) ); return true; }
  if( p.fault == "both" ) { int n = 0; for( const El& e : d ) n += e.tag == "impact_operator" || e.tag == "sobogus_friction_solver"; if( n != 1 ) return false; bool imp = false; for( const El& e : d ) imp = imp || e.tag == "impact_operator"; d.push_back( imp ? sobogus() : op( "impact_operator", true, 1 ) ); return true; }
  if( p.fault == "foreign" || p.fault == "nameless" ) { d.erase( std::remove_if( d.begin(), d.end(), []( const El& e ) { return e.tag == "impact_operator" || e.tag == "sobogus_friction_solver"; } ), d.end() ); El e = op( "impact_operator", true, 0 ); e.kids.clear(); for( At& a : e.at ) if( a.k == "type" ) a.text = "lcp"; El s = solver(); if( p.fault == "nameless" ) s.at.erase( s.at.begin() ); else if( WHICH == 1 ) s.at[0].text = "ipopt"; e.kids.push_back( s ); d.push_back( e ); return true; }
  if( p.fault == "coarse" ) { for( El& e : d ) if( e.tag == "sobogus_friction_solver" ) { for( At& a : e.at ) if( a.k == "eval_every" ) { a.v[0] = d0( e, "max_iters" ) + 1; a.text = std::to_string( int( a.v[0] ) ); return true; } } return false; }
  if( p.fault == "bouncy" ) { for( El& e : d ) if( e.tag == "sobogus_friction_solver" && w0( e, "staggering" ) == "symplectic_euler" ) { for( At& a : e.at ) if( a.k == "CoR" ) { a.v[0] = 0.5; a.text = "0.5"; return true; } } return false; }
  if( p.fault == "same" ) { for( El& e : d ) if( e.tag == p.tag ) { for( At& a : e.at ) if( a.k == "planeB" ) { const At* x = find( e, "planeA" ); a.v = x->v; a.text = x->text; return true; } } return false; }
  if( p.fault.compare( 0, 5, "used:" ) == 0 )
  {
    // the first portal of the one kind and the last of the other, in the order the kinds are named
    const std::size_t sep = p.tag.find( ':' ); const T t0 = p.tag.substr( 0, sep ), t1 = p.tag.substr( sep + 1 ), from = p.fault.substr( 5, 6 ), to = p.fault.substr( 12, 6 );
    El *one0 = nullptr, *other = nullptr; for( El& e : d ) { if( e.tag == t0 && !one0 ) one0 = &e; if( e.tag == t1 ) other = &e; } if( !one0 || !other || one0 == other ) return false;
    const At* x = find( *one0, from ); for( At& a : other->at ) if( a.k == to ) { a.v = x->v; a.text = x->text; return true; } return false;
  }
  if( p.fault == "thick" ) { for( El& e : d ) if( e.tag == "geometry" && find( e, "D" ) ) { const T k = one( { "w", "l" } ); const double x = d0( e, k.c_str() ) + 0.5; for( At& a : e.at ) if( a.k == "D" ) { char b[64]; std::snprintf( b, sizeof b, "%.17g", x ); a.v = { x }; a.text = b; return true; } } return false; }
  if( p.fault == "flat" ) { for( El& e : d ) if( e.tag == "simulation_boundary" ) { const At* lo = find( e, "min" ); const int k = g().i( 0, 2 ); for( At& a : e.at ) if( a.k == "max" ) { a.v[std::size_t( k )] = lo->v[std::size_t( k )]; a.text.clear(); for( const double x : a.v ) { char b[64]; std::snprintf( b, sizeof b, "%.17g", x ); a.text += ( a.text.empty() ? "" : " " ) + T( b ); } return true; } } return false; }
  std::fprintf( stderr, "plan %s?\n", p.fault.c_str() ); std::exit( 4 );
}
static T gap() { return one( { " ", " ", "\n", "\n    ", "\t", "  " } ); }
static T write( const El& e )
{
  T s = "<" + e.tag; std::vector<At> a = e.at; for( int i = int( a.size() ) - 1; i > 0; --i ) std::swap( a[std::size_t( i )], a[std::size_t( g().i( 0, i ) )] );
  for( const At& x : a ) { const T q = g().b( 0.15 ) ? "'" : "\""; s += gap() + x.k + ( g().b( 0.1 ) ? " = " : "=" ) + q + x.text + q; }
  if( e.kids.empty() && g().b( 0.8 ) ) return s + ( g().b( 0.3 ) ? " />" : "/>" );
  s += ">"; for( const El& c : e.kids ) s += one( { "", "\n  " } ) + write( c ); return s + one( { "", "\n" } ) + "</" + e.tag + ">";
}
static T text( const Els& d, const T& root )
{
  T s = g().b( 0.3 ) ? "<?xml version=\"1.0\"?>\n" : ""; s += "<" + root + ">"; for( const El& e : d ) { if( g().b( 0.05 ) ) s += "<!-- a note <ball x=\"1\"/> -->"; s += one( { "\n", "\n  ", " " } ) + write( e ); } return s + "\n</" + root + ">" + one( { "", "\n" } );
}
static T parse( const T& file, const Els& d, const bool look )
{
  T script_name, dt_text; std::unique_ptr<UnconstrainedMap> um; Rat dt; scalar end = 0, cor = 0, mu = 0; Op op; std::unique_ptr<FrictionSolver> fs; std::unique_ptr<ImpactFrictionMap> fm; std::unique_ptr<ImpactMap> im; SubObj o;
  State st; bool ok; T camera;
#if WHICH == 1
  bool set = false; Eigen::Vector2d c; double sc = 0; unsigned fps = 0; bool raf = false, lock = false;
  if( look ) { ok = Ball2DSceneParser::parseXMLSceneFile( file, script_name, st, um, dt_text, dt, end, op, im, cor, fs, mu, fm, set, c, sc, fps, raf, lock ); SubObj k; k.t( "k", set ? "plane" : "none" ); if( ok && set ) k.v( "x", c ).n( "scale", sc ).n( "fps", fps ).n( "raf", raf ).n( "lock", lock ); camera = k.done(); }
  else { ok = Ball2DSceneParser::parseXMLSceneFile( file, script_name, st, um, dt_text, dt, end, op, im, cor, fs, mu, fm ); camera = "{\"k\":\"unread\"}"; }
#elif WHICH == 2
  CameraSettings2D cs; ok = RigidBody2DSceneParser::parseXMLSceneFile( file, script_name, st, um, dt_text, dt, end, op, im, cor, fs, mu, fm, cs );
  { SubObj k; k.t( "k", cs.set ? "plane" : "none" ); if( ok && cs.set ) k.v( "x", cs.center ).n( "scale", cs.scale ).n( "fps", cs.fps ).n( "raf", cs.render_at_fps ).n( "lock", cs.locked ); camera = k.done(); }
#else
  RenderingState rs; ok = RigidBody3DSceneParser::parseXMLSceneFile( file, script_name, st, um, dt_text, dt, end, op, cor, fs, mu, fm, rs );
  if( ok )
  {
    SubObj k; k.t( "k", !rs.cameraSettingsInitialized() ? "none" : rs.perspectiveCameraSelected() ? "perspective" : rs.orthographicCameraSelected() ? "orthographic" : "odd" );
    if( rs.perspectiveCameraSelected() ) k.n( "theta", rs.cameraTheta() ).n( "phi", rs.cameraPhi() ).n( "rho", rs.cameraRho() ).v( "at", rs.cameraLookAt() ).v( "up", rs.cameraUp() );
    if( rs.orthographicCameraSelected() ) k.t( "plane", rs.orthographicProjectionPlane() ).v( "x", rs.orthographicX() ).n( "scale", rs.orthographicScale() );
    if( rs.cameraSettingsInitialized() ) k.n( "fps", rs.FPS() ).n( "raf", rs.renderAtFPS() ).n( "lock", rs.locked() );
    std::vector<T> a; for( std::size_t i = 0; i < rs.numPlaneRenderers(); ++i ) a.push_back( SubObj().n( "i", rs.planeRenderer( i ).index() ).v( "r", rs.planeRenderer( i ).r() ).done() ); o.raw( "pr", arr( a ) ); a.clear();
    for( std::size_t i = 0; i < rs.numCylinderRenderers(); ++i ) a.push_back( SubObj().n( "i", rs.cylinderRenderer( i ).index() ).n( "L", rs.cylinderRenderer( i ).L() ).done() ); o.raw( "cr", arr( a ) ); a.clear();
    for( std::size_t i = 0; i < rs.numPlanarPortalRenderers(); ++i ) a.push_back( SubObj().n( "i", rs.portalRenderer( i ).portalIndex() ).v( "a", rs.portalRenderer( i ).halfWidth0() ).v( "b", rs.portalRenderer( i ).halfWidth1() ).done() ); o.raw( "po", arr( a ) );
    camera = k.done();
  }
#endif
  if( !ok ) return "";
  o.t( "script", script_name ).t( "dt", dt_text ).raw( "dtq", "[" + num( int( dt.numerator() ) ) + "," + num( int( dt.denominator() ) ) + "]" ).t( "um", um ? um->name() : "none" ).n( "ends", std::isfinite( end ) ); if( std::isfinite( end ) ) o.n( "end", double( end ) );
  o.raw( "cam", camera );
  o.t( "op", op ? op->name() : "none" ).t( "fs", fs ? fs->name() : "none" ).t( "fm", fm ? fm->name() : "none" ).n( "im", im != nullptr ); if( op || fs ) o.n( "cor", double( cor ) ); if( fs ) o.n( "mu", double( mu ) );
  for( const El& e : d )
  {
    if( e.tag == "impact_operator" && op )
    {
      const Made m = build( e ); o.raw( "want", m.p ).n( "same", m.plain ? bytes( m.x ) == bytes( op ) : m.x && m.x->name() == op->name() );
      if( WHICH != 3 && im ) { std::unique_ptr<ImpactMap> ref( new ImpactMap( d0( e, "cache_impulses" ) == 1 ) ); o.n( "warm", int( d0( e, "cache_impulses" ) ) ).n( "samemap", bytes( ref ) == bytes( im ) ); }
    }
    if( e.tag == "sobogus_friction_solver" && fs && fm )
    {
      const SobogusSolverType ty = WHICH == 1 ? SobogusSolverType::Balls2D : WHICH == 2 ? SobogusSolverType::RigidBody2D : SobogusSolverType::RigidBodies3D; const unsigned ev = unsigned( d0( e, "eval_every" ) ), mx = unsigned( d0( e, "max_iters" ) ); const double tol = d0( e, "tol" ), pen = d0( e, "penetration_threshold" ); const T sg = w0( e, "staggering" ), cw = w0( e, "cache_impulses" ); const bool stab = d0( e, "stabilization" ) == 1;
      const ImpulsesToCache c = cw == "normal" ? ImpulsesToCache::NORMAL : cw == "normal_and_friction" ? ImpulsesToCache::NORMAL_AND_FRICTION : ImpulsesToCache::NONE; const bool keep = WHICH != 3 || sg == "symplectic_euler";
      std::unique_ptr<FrictionSolver> rf( new Sobogus( ty, ev ) ); std::unique_ptr<ImpactFrictionMap> rm; SubObj w; w.t( "k", sg ).n( "every", ev ).n( "tol", tol ).n( "max", mx ).t( "cache", sg == "stabilized" ? "none" : keep ? cw : "none" );
      if( sg == "geometric" ) rm.reset( new GeometricImpactFrictionMap( tol, mx, keep ? c : ImpulsesToCache::NONE ) ); else if( sg == "stabilized" ) rm.reset( new StabilizedImpactFrictionMap( tol, mx, false, false ) ); else { rm.reset( new SymplecticEulerImpactFrictionMap( tol, mx, c, stab, pen ) ); w.n( "stab", stab ).n( "pen", pen ); }
      o.raw( "want", w.done() ).n( "same", bytes( rf ) == bytes( fs ) && bytes( rm ) == bytes( fm ) );
    }
  }
  if( !op && !fs ) o.raw( "want", "{\"k\":\"none\"}" ).n( "same", true );
#if WHICH == 1
  { // what the forces do to two balls of unit mass that overlap
    VectorXs q( 4 ), v = VectorXs::Zero( 4 ), r = VectorXs::Ones( 2 ), F = VectorXs::Zero( 4 ); q << 0, 0, 1.75, 0; MatrixXXsc M = MatrixXXsc::Identity( 4, 4 ); const SparseMatrixsc Ms = M.sparseView(); double U = 0; for( const auto& f : st.forces() ) { f->computeForce( q, v, Ms, r, F ); U += f->computePotential( q, Ms, r ); } o.v( "pF", F ).n( "pU", U );
  }
#endif
  Sim sim; sim.state() = st; return o.raw( "w", sim_view( sim ) ).done();
}
static void put( Out& out, const Plan& p, const T& dir )
{
  Els d; T root = ROOT, form = "whole"; int tries = 0; do { if( ++tries > 4000 ) { std::fprintf( stderr, "no document for %s %s %s\n", p.tag.c_str(), p.at.c_str(), p.fault.c_str() ); std::exit( 4 ); } d = document(); } while( !p.fault.empty() && !inflict( d, p, root, form ) );
  T s = text( d, root ); const T file = dir + "/scene.xml"; std::remove( file.c_str() );
  if( form == "cut" ) s = s.substr( 0, s.size() / 2 ); else if( form == "unclosed" ) s = s.substr( 0, s.rfind( "</" ) ); else if( form == "void" ) s = "";
  if( form != "absent" ) std::ofstream( file ) << s;
  std::fflush( out.f ); int fd[2]; if( pipe( fd ) ) std::abort(); const bool look = WHICH != 1 || p.tag == "camera" || g().b( 0.7 ); const pid_t pid = fork();
  if( pid == 0 )
  {
    if( std::getenv( "SHOWERR" ) == nullptr && ( std::freopen( "/dev/null", "w", stderr ) == nullptr || std::freopen( "/dev/null", "w", stdout ) == nullptr ) ) _exit( 98 );
    alarm( 60 ); const T r = parse( file, d, look ); std::size_t done = 0; while( done < r.size() ) { const ssize_t w = ::write( fd[1], r.data() + done, r.size() - done ); if( w <= 0 ) _exit( 97 ); done += std::size_t( w ); }
    _exit( r.empty() ? 1 : 0 );
  }
  close( fd[1] ); T got; char buf[4096]; ssize_t r; while( ( r = read( fd[0], buf, sizeof buf ) ) > 0 ) got.append( buf, std::size_t( r ) ); close( fd[0] );
  int st = 0; waitpid( pid, &st, 0 ); const bool clean = WIFEXITED( st ); const bool took = clean && WEXITSTATUS( st ) == 0 && !got.empty();
  Obj ev( "scene" ); ev.t( "lay", LAY ).raw( "plan", SubObj().t( "t", p.tag ).t( "a", p.at ).t( "f", p.fault ).done() ).t( "root", root ).t( "form", form ).raw( "doc", json( d ) ).n( "look", look ).n( "clean", clean ).n( "took", took ); if( took ) ev.raw( "r", got );
  if( std::getenv( "TEXT" ) ) ev.t( "text", s );
  out.put( ev );
}
int main( int, char** argv )
{
  Rng r( std::strtoull( argv[2], nullptr, 10 ) ); G = &r; const int each = std::atoi( argv[3] ), plain = std::atoi( argv[4] ); Out out( argv[5] ); const T dir = T( argv[5] ) + ".d"; if( std::system( ( "mkdir -p '" + dir + "'" ).c_str() ) ) return 3;
  std::vector<Plan> plans; { std::ifstream in( argv[1] ); T line; while( std::getline( in, line ) ) { boost::property_tree::ptree t; std::stringstream ss( line ); boost::property_tree::read_json( ss, t ); if( t.get<T>( "lay" ) == LAY ) plans.push_back( { t.get<T>( "t" ), t.get<T>( "a" ), t.get<T>( "f" ) } ); } }
  for( int i = 0; i < plain; ++i ) put( out, { "", "", "" }, dir );
  for( const Plan& p : plans ) for( int i = 0; i < each; ++i ) put( out, p, dir );
  std::remove( ( dir + "/scene.xml" ).c_str() ); rmdir( dir.c_str() ); return 0;
}
