// Broad phase: the pairs of bounding boxes the spatial grids report.
//   drv_grid <enumerated.json> <seed> <n> <out.ndjson>, built once per simulator with -DWHICH=1 (ball2d), 2 (rigidbody2d), 3 (rigidbody3d)
#include "vjson.h"
#include <cassert>
#include <cmath>
#include <fstream>
#include <set>
#include <utility>
#include <vector>
#include "scisim/Math/MathDefines.h"
#if WHICH == 1
#include "ball2d/SpatialGridDetector.h"
#define GRID SpatialGridDetector
#elif WHICH == 2
#include "rigidbody2d/SpatialGrid.h"
#define GRID SpatialGrid
#else
#include "rigidbody3d/SpatialGridDetector.h"
#define GRID SpatialGridDetector
#endif
using namespace vj;
static const int D = WHICH == 3 ? 3 : 2;
#if WHICH == 3
typedef Array3s A;
#else
typedef Array2s A;
#endif
struct Box { double lo[3], hi[3]; };
static std::string seq( const double* x ) { std::vector<std::string> s; for( int k = 0; k < D; ++k ) s.push_back( num( x[k] ) ); return arr( s ); }
static AABB make( const Box& b ) { A lo, hi; for( int k = 0; k < D; ++k ) { lo( k ) = b.lo[k]; hi( k ) = b.hi[k]; } 
#if WHICH == 3
  AABB r; r.min() = lo; r.max() = hi; return r;
#else
  return AABB( lo, hi );
#endif
}
static std::string boxes( const std::vector<Box>& bs ) { std::vector<std::string> a; for( const Box& b : bs ) a.push_back( "{\"lo\":" + seq( b.lo ) + ",\"hi\":" + seq( b.hi ) + "}" ); return arr( a ); }
static std::string pairs( const std::set<std::pair<unsigned,unsigned>>& s ) { std::vector<std::string> a; for( const auto& p : s ) a.push_back( "[" + std::to_string( p.first ) + "," + std::to_string( p.second ) + "]" ); return arr( a ); }
static void run( Out& out, const std::vector<Box>& bs )
{
  std::vector<AABB> v; for( const Box& b : bs ) v.push_back( make( b ) );
  std::set<std::pair<unsigned,unsigned>> grid, all;
  GRID::getPotentialOverlaps( v, grid );
#if WHICH != 2
  GRID::getPotentialOverlapsAllPairs( v, all );
#else
  // the trial box query, asked of the boxes after it
  for( std::size_t i = 0; i < v.size(); ++i )
  {
    const std::vector<AABB> rest( v.begin() + i + 1, v.end() ); std::vector<unsigned> o; GRID::getPotentialOverlaps( v[i], rest, o );
    for( std::size_t k = 0; k < o.size(); ++k ) all.insert( std::make_pair( unsigned( i ), unsigned( i + 1 + o[k] ) ) );
    for( std::size_t k = 1; k < o.size(); ++k ) if( o[k] <= o[k-1] ) all.insert( std::make_pair( 999u, 999u ) );
  }
#endif
  out.put( Obj( "grid" ).raw( "boxes", boxes( bs ) ).raw( "pairs", pairs( grid ) ).raw( "all", pairs( all ) ) );
}
int main( int argc, char** argv )
{
  Out out( argv[4] ); Rng g( std::strtoull( argv[2], nullptr, 10 ) * 3 + WHICH ); const int n = std::atoi( argv[3] );
  std::ifstream in( argv[1] ); std::string line; long count = 0;
  while( std::getline( in, line ) )
  {
    // [x0,x1,y0,y1, x0,x1,y0,y1, ...]; the third dimension cycles through intervals of the same lattice
    std::vector<long> a; const char* c = line.c_str();
    while( *c ) { if( *c == '-' || ( *c >= '0' && *c <= '9' ) ) { char* e; a.push_back( std::strtol( c, &e, 10 ) ); c = e; } else ++c; }
    static const int Z[6][2] = { {0,1}, {0,2}, {1,2}, {1,3}, {2,3}, {0,3} };
    const double scale = ( count % 3 == 0 ) ? 1.0 : ( count % 3 == 1 ) ? 0.125 : 1024.0; const double off = ( count % 5 == 0 ) ? -2.0 : ( count % 5 == 1 ) ? 7.0 : 0.0;
    std::vector<Box> bs;
    for( std::size_t i = 0; i + 3 < a.size(); i += 4 )
    {
      Box b; const int* z = Z[( count * 7 + i * 5 + count / 6 ) % 6];
      const double lo[3] = { double( a[i] ), double( a[i + 2] ), double( z[0] ) }, hi[3] = { double( a[i + 1] ), double( a[i + 3] ), double( z[1] ) };
      for( int k = 0; k < 3; ++k ) { b.lo[k] = scale * ( lo[k] + off ); b.hi[k] = scale * ( hi[k] + off ); }
      bs.push_back( b );
    }
    ++count; run( out, bs );
  }
  for( int i = 0; i < n; ++i )
  {
    const int kind = g.i( 0, 5 ); const int m = g.i( 1, kind == 5 ? 40 : 14 ); std::vector<Box> bs;
    const double L = std::pow( 10.0, g.d( -2, 3 ) ), size = L * g.d( 0.05, 0.6 ); double off[3]; for( int k = 0; k < 3; ++k ) off[k] = g.b( 0.3 ) ? g.d( -50, 50 ) * L : 0.0;
    const double quant = size * 0.5;
    for( int j = 0; j < m; ++j )
    {
      Box b;
      for( int k = 0; k < 3; ++k )
      {
        double w = size * g.d( 0.3, 1.0 );
        if( kind == 1 ) w = j == 0 ? L * g.d( 1.0, 2.0 ) : size * g.d( 0.02, 0.2 );       // one large among small
        if( kind == 2 ) w = size * ( ( j + k ) % 3 == 0 ? 4.0 : 0.1 );                    // slender ones
        double x = off[k] + g.d( -L, L );
        if( kind == 3 || kind == 4 ) { w = quant * g.i( 1, 3 ); x = off[k] + quant * g.i( -5, 5 ); }   // faces that touch exactly
        b.lo[k] = x; b.hi[k] = x + w;
      }
      if( kind == 4 && j > 0 ) { const int k = g.i( 0, D - 1 ); const Box& o = bs[g.i( 0, j - 1 )]; const double w = b.hi[k] - b.lo[k]; b = o; b.lo[k] = o.hi[k]; b.hi[k] = o.hi[k] + w; if( g.b( 0.3 ) ) b.lo[k] = std::nextafter( b.lo[k], 1.0e300 ); }
      bs.push_back( b );
    }
    run( out, bs );
  }
  return 0;
}
