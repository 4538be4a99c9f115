// The worlds a scene goes through: reads the scene, advances it N steps, writes each world's saved form.
#include <fstream>
#include <iostream>
#include <sstream>
#include "sim_adapt.h"
#include "scisim/ConstrainedMaps/ImpactFrictionMap.h"
#if WHICH == 1
#include "ball2dutils/Ball2DSceneParser.h"
#elif WHICH == 2
#include "rigidbody2dutils/RigidBody2DSceneParser.h"
#include "rigidbody2dutils/CameraSettings2D.h"
#else
#include "rigidbody3dutils/RigidBody3DSceneParser.h"
#include "rigidbody3dutils/RenderingState.h"
#include "rigidbody3d/StaticGeometry/StaticCylinder.h"
#endif
int main( int argc, char** argv )
{
  if( argc != 4 ) return 2;
  const std::string file = argv[1], out = argv[3]; const unsigned N = unsigned( atoi( argv[2] ) );
  std::string script_name, dt_text; std::unique_ptr<UnconstrainedMap> um; Rat dt; scalar end, cor, mu;
  std::unique_ptr<ImpactOperator> op; std::unique_ptr<FrictionSolver> fs; std::unique_ptr<ImpactFrictionMap> fm; std::unique_ptr<ImpactMap> im;
  State st; bool ok;
#if WHICH == 1
  ok = Ball2DSceneParser::parseXMLSceneFile( file, script_name, st, um, dt_text, dt, end, op, im, cor, fs, mu, fm );
#elif WHICH == 2
  CameraSettings2D cs; ok = RigidBody2DSceneParser::parseXMLSceneFile( file, script_name, st, um, dt_text, dt, end, op, im, cor, fs, mu, fm, cs );
#else
  RenderingState rs; ok = RigidBody3DSceneParser::parseXMLSceneFile( file, script_name, st, um, dt_text, dt, end, op, cor, fs, mu, fm, rs );
#endif
  if( !ok ) return 3;
  Sim sim; using std::swap; swap( sim.state(), st );
  PythonScripting py;
  for( unsigned k = 0; k <= N; ++k )
  {
    if( k )
    {
      if( um && !op && !fs ) sim.flow( py, k, dt, *um );
#if WHICH == 3
      else if( um && op ) sim.flow( py, k, dt, *um, *op, cor );
#else
      else if( um && op ) sim.flow( py, k, dt, *um, *op, cor, *im );
#endif
      else if( um && fs ) sim.flow( py, k, dt, *um, cor, mu, *fs, *fm );
    }
    std::ofstream o( out + "/" + std::to_string( k ), std::ios::binary ); sim.serialize( o );
  }
  std::cout << nb( sim ) << std::endl;
  return 0;
}
