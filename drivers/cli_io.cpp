// Linked into a command-line simulator: its files are watched, and the process can be ended, or a file
// operation made to fail, at a chosen point of a chosen save.
//   CLI_LOG    file the operations are listed in
//   CLI_SHOTS  directory the finished snapshots are copied to before the next one is begun and at the end
//   CLI_AT     "<save> <point>": open, torn, close, rename end the process there; fail-open, fail-write
//              and fail-rename make that operation fail
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

template<class F> static F next( const char* n ) { return reinterpret_cast<F>( dlsym( RTLD_NEXT, n ) ); }
static int g_save = -1;                          // the save in progress
static FILE* g_file = nullptr; static int g_fd = -1; static std::string g_name;

static void rawWrite( const int fd, const void* p, size_t n )
{
  static auto w = next<ssize_t (*)( int, const void*, size_t )>( "write" );
  const char* c = static_cast<const char*>( p );
  while( n ) { const ssize_t k = w( fd, c, n ); if( k <= 0 ) break; c += k; n -= size_t( k ); }
}
void cliLog( const std::string& s )
{
  const char* f = getenv( "CLI_LOG" ); if( !f ) return;
  static const int fd = ::open( f, O_WRONLY | O_CREAT | O_APPEND, 0644 );
  const std::string t = s + "\n"; rawWrite( fd, t.data(), t.size() );
}
static bool at( const char* point )
{
  static const std::string plan = getenv( "CLI_AT" ) ? getenv( "CLI_AT" ) : "";
  return plan == std::to_string( g_save ) + " " + point;
}
static void endHere() { cliLog( "x" ); _exit( 77 ); }
static void shots()
{
  const char* to = getenv( "CLI_SHOTS" ); if( !to ) return;
  static auto op = next<FILE* (*)( const char*, const char* )>( "fopen" );
  static auto cl = next<int (*)( FILE* )>( "fclose" );
  DIR* d = opendir( "." ); if( !d ) return;
  while( dirent* e = readdir( d ) )
  {
    const std::string n = e->d_name;
    if( n.compare( 0, 6, "serial" ) != 0 || n.size() < 4 || n.compare( n.size() - 4, 4, ".bin" ) != 0 ) continue;
    FILE* in = op( n.c_str(), "rb" ); if( !in ) continue;
    const int fd = ::open( ( std::string( to ) + "/" + std::to_string( g_save ) + "-" + n ).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644 );
    char b[8192]; size_t k; while( ( k = fread( b, 1, sizeof b, in ) ) > 0 ) rawWrite( fd, b, k );
    ::close( fd ); cl( in );
  }
  closedir( d );
}
struct AtEnd { ~AtEnd() { shots(); } } g_atEnd;

extern "C" FILE* fopen( const char* n, const char* mode )
{
  static auto f = next<FILE* (*)( const char*, const char* )>( "fopen" );
  if( !strchr( mode, 'w' ) && !strchr( mode, 'a' ) ) return f( n, mode );
  shots(); ++g_save;
  if( at( "open" ) ) endHere();
  if( at( "fail-open" ) ) { errno = EACCES; return nullptr; }
  g_file = f( n, mode ); g_name = n;
  if( g_file ) g_fd = fileno( g_file );
  return g_file;
}
extern "C" ssize_t write( int fd, const void* p, size_t n )
{
  if( fd == g_fd && n )
  {
    if( at( "torn" ) ) { rawWrite( fd, p, n / 2 ); endHere(); }
    if( at( "fail-write" ) ) { errno = ENOSPC; return -1; }
  }
  static auto w = next<ssize_t (*)( int, const void*, size_t )>( "write" );
  return w( fd, p, n );
}
extern "C" ssize_t writev( int fd, const iovec* v, int c )
{
  if( fd == g_fd )
  {
    if( at( "torn" ) ) { rawWrite( fd, v[0].iov_base, v[0].iov_len / 2 ); endHere(); }
    if( at( "fail-write" ) ) { errno = ENOSPC; return -1; }
  }
  static auto w = next<ssize_t (*)( int, const iovec*, int )>( "writev" );
  return w( fd, v, c );
}
extern "C" int fclose( FILE* f )
{
  static auto c = next<int (*)( FILE* )>( "fclose" );
  if( f == g_file && f )
  {
    if( at( "close" ) ) endHere();
    g_file = nullptr; g_fd = -1; cliLog( "w " + g_name );
  }
  return c( f );
}
extern "C" int rename( const char* a, const char* b )
{
  static auto r = next<int (*)( const char*, const char* )>( "rename" );
  if( at( "rename" ) ) endHere();
  if( at( "fail-rename" ) ) { errno = EACCES; return -1; }
  const int k = r( a, b );
  cliLog( std::string( "r " ) + a + " " + b );
  return k;
}
