// pbt.cpp - driver of the engine declared in pbt.h
#include "pbt.h"
#define PLAIN_REGEX template
#include "plain_regex.h"
#include <atomic>
#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <unordered_set>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt {

std::vector<Test>& tests() { static std::vector<Test> t; return t; }
std::vector<std::function<void()>>& inits() { static std::vector<std::function<void()>> t; return t; }

static uint64_t splitmix( uint64_t& s )
{
    uint64_t z = ( s += 0x9e3779b97f4a7c15ull );
    z = ( z ^ ( z >> 30 ) )*0xbf58476d1ce4e5b9ull;
    z = ( z ^ ( z >> 27 ) )*0x94d049bb133111ebull;
    return z ^ ( z >> 31 );
}
static inline uint64_t rotl( uint64_t x, int k ) { return ( x << k ) | ( x >> ( 64 - k ) ); }

void Ctx::seed( uint64_t s ) { for( auto& x : m_rng ) x = splitmix( s ); }

uint64_t Ctx::draw( uint64_t max )
{
    uint64_t v = 0;
    if( m_mode == Random ) {
        const uint64_t r = rotl( m_rng[1]*5, 7 )*9, t = m_rng[1] << 17;
        m_rng[2] ^= m_rng[0]; m_rng[3] ^= m_rng[1]; m_rng[1] ^= m_rng[2]; m_rng[0] ^= m_rng[3];
        m_rng[2] ^= t; m_rng[3] = rotl( m_rng[3], 45 );
        v = max == ~0ull ? r : static_cast<uint64_t>( ( static_cast<unsigned __int128>( r )*( max + 1 ) ) >> 64 );
    }
    else if( m_mode == Replay ) {
        v = m_pos < m_nin ? m_in[m_pos] : 0;
        if( v > max ) v = max;
    }
    else {
        int nb = max < 0x100 ? 1 : max < 0x10000 ? 2 : max < 0x100000000ull ? 4 : 8;
        for( int i = 0; i < nb && m_pos < m_nbytes; ++i )
            v |= static_cast<uint64_t>( m_bytes[m_pos++] ) << ( 8*i );
        if( max != ~0ull ) v %= max + 1;
        if( m_nout && *m_nout < m_maxOut ) m_out[( *m_nout )++] = v;
        return v;
    }
    ++m_pos;
    if( m_nout && *m_nout < m_maxOut ) m_out[( *m_nout )++] = v;
    return v;
}

double Ctx::num( double s )
{
    switch( draw( 3 ) ) {
        case 0: { int k = std::max( 1, static_cast<int>( std::min( s, 4.0 ) ) ); int i = static_cast<int>( draw( 2*k ) ); return i & 1 ? ( i + 1 )/2 : -( i/2 ); }
        case 1: { uint64_t i = draw( 128 ); double v = ( ( i + 1 )/2 )/64.0*s; return i & 1 ? v : -v; }
        case 2: { double v = unit()*s; return flip() ? -v : v; }
        default: { double v = unit()*( s < 1 ? s : 1 ); return flip() ? -v : v; }
    }
}
double Ctx::nz( double s ) { double x = num( s ); return x == 0 ? 1 : x; }
int Ctx::pickw( std::initializer_list<int> w )
{
    int sum = 0; for( int x : w ) sum += x;
    int k = static_cast<int>( draw( sum - 1 ) ), i = 0;
    for( int x : w ) { if( k < x ) return i; k -= x; ++i; }
    return 0;
}
std::vector<unsigned> Ctx::perm( unsigned n )
{
    std::vector<unsigned> p( n ); for( unsigned i = 0; i < n; ++i ) p[i] = i;
    for( unsigned i = 0; i + 1 < n; ++i ) std::swap( p[i], p[ i + draw( n - 1 - i ) ] );
    return p;
}

namespace {

const size_t MaxChoices = 1 << 18;
const size_t MaxText = 1 << 15;
const size_t MaxHashes = 1 << 21;
const size_t MaxLabels = 200;

enum Outcome { Pass = 0, Fail = 1, Discarded = 2, Running = 3 };

struct Shm {
    std::atomic<uint64_t> caseStartMs;
    std::atomic<int> outcome;            // of the current case
    std::atomic<long> caseIdx;
    uint32_t nchoices;
    char key[256], msg[MaxText], log[MaxText];
    // statistics
    uint64_t done, discarded, nontrivial, nhashes;
    uint32_t nlabels; char labels[MaxLabels][48]; uint64_t labelCount[MaxLabels];
    uint32_t nsamples; char samples[4][1024];
    uint64_t choices[MaxChoices];
    uint64_t hashes[MaxHashes];
};

Shm *newShm()
{
    void *p = mmap( nullptr, sizeof( Shm ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
    if( p == MAP_FAILED ) { perror( "mmap" ); _exit( 2 ); }
    return static_cast<Shm*>( p );
}

uint64_t nowMs()
{
    using namespace std::chrono;
    return duration_cast<milliseconds>( steady_clock::now().time_since_epoch() ).count();
}

void put( char *dst, size_t cap, const std::string& s )
{
    size_t n = std::min( s.size(), cap - 1 );
    memcpy( dst, s.data(), n ); dst[n] = 0;
}

bool g_thorough = false;
uint64_t g_seed = 1;

// Runs one case in this process
Outcome runCase( const Test& t, Shm *shm, Ctx& c )
{
    shm->nchoices = 0; shm->key[0] = shm->msg[0] = shm->log[0] = 0;
    c.m_out = shm->choices; c.m_nout = &shm->nchoices; c.m_maxOut = MaxChoices;
    c.m_thorough = g_thorough;
    c.log.precision( 17 );
    shm->caseStartMs = nowMs();
    shm->outcome = Running;
    Outcome o = Pass;
    try { t.body( c ); }
    catch( const Discard& ) { o = Discarded; }
    catch( const Failure& f ) { o = Fail; put( shm->key, sizeof shm->key, f.key ); put( shm->msg, sizeof shm->msg, f.msg ); }
    catch( const std::exception& e ) { o = Fail; put( shm->key, sizeof shm->key, "unexpected-exception" ); put( shm->msg, sizeof shm->msg, std::string( "unexpected exception: " ) + e.what() ); }
    catch( ... ) { o = Fail; put( shm->key, sizeof shm->key, "unexpected-exception" ); put( shm->msg, sizeof shm->msg, "unexpected exception of unknown type" ); }
    put( shm->log, sizeof shm->log, c.log.str() );
    return o;
}

uint64_t hashChoices( const uint64_t *p, size_t n, uint64_t h )
{
    for( size_t i = 0; i < n; ++i ) { h ^= p[i]; h *= 0x100000001b3ull; h ^= h >> 29; }
    return h;
}

void addLabel( Shm *s, const std::string& l )
{
    for( uint32_t i = 0; i < s->nlabels; ++i )
        if( !strncmp( s->labels[i], l.c_str(), 47 ) ) { ++s->labelCount[i]; return; }
    if( s->nlabels < MaxLabels ) { put( s->labels[s->nlabels], 48, l ); s->labelCount[s->nlabels++] = 1; }
}

void redirectStderr( const std::string& file )
{
    int fd = open( file.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600 );
    if( fd >= 0 ) { dup2( fd, 2 ); ::close( fd ); }
    int nul = open( "/dev/null", O_WRONLY );
    if( nul >= 0 ) { dup2( nul, 1 ); ::close( nul ); }
}

// A case that burns this much CPU time (cases take milliseconds) is a hang: SIGPROF ends the process.
// CPU time, unlike wall time, does not depend on what else the machine is doing.
void cpuLimit( int seconds )
{
    struct itimerval tv; memset( &tv, 0, sizeof tv ); tv.it_value.tv_sec = seconds;
    setitimer( ITIMER_PROF, &tv, nullptr );
}
const int CaseCpuSeconds = 15;

uint64_t caseSeed( const Test& t, long idx )
{
    uint64_t h = 1469598103934665603ull;
    for( const char *p = t.name; *p; ++p ) { h ^= static_cast<unsigned char>( *p ); h *= 0x100000001b3ull; }
    h ^= g_seed*0x9e3779b97f4a7c15ull;
    uint64_t s = h + static_cast<uint64_t>( idx )*0xd1b54a32d192ed03ull;
    return splitmix( s );
}

[[noreturn]] void worker( const Test& t, Shm *shm, long from, long step, long total, const std::string& errFile )
{
    struct rlimit rl = { 0, 0 }; setrlimit( RLIMIT_CORE, &rl );
    redirectStderr( errFile );
    for( auto& f : inits() ) f();
    for( long i = from; i < total; i += step ) {
        shm->caseIdx = i;
        Ctx c; c.m_mode = Ctx::Random; c.seed( caseSeed( t, i ) );
        cpuLimit( CaseCpuSeconds );
        Outcome o = runCase( t, shm, c );
        shm->outcome = o;
        if( o == Fail ) _exit( 3 );
        ++shm->done;
        if( o == Discarded ) ++shm->discarded;
        else {
            for( auto& l : c.m_labels ) addLabel( shm, l );
            if( c.m_nontrivial ) {
                ++shm->nontrivial;
                if( shm->nhashes < MaxHashes ) shm->hashes[shm->nhashes++] = hashChoices( shm->choices, shm->nchoices, 7 );
                if( shm->nsamples < 2 && i >= step )
                    put( shm->samples[shm->nsamples++], 1024, shm->log );
            }
        }
    }
    _exit( 0 );
}

std::string readFile( const std::string& f, size_t cap = 6000 )
{
    std::ifstream s( f ); std::string r( ( std::istreambuf_iterator<char>( s ) ), std::istreambuf_iterator<char>() );
    if( r.size() > cap ) r.resize( cap );
    return r;
}

std::string crashKey( int status )
{
    if( WIFSIGNALED( status ) ) return WTERMSIG( status ) == SIGPROF ? "hang" : "crash-signal-" + std::to_string( WTERMSIG( status ) );
    return "crash-exit-" + std::to_string( WEXITSTATUS( status ) );
}

struct Found { bool any = false; long idx = -1; std::vector<uint64_t> choices; std::string key, msg, log; };

const uint64_t CaseTimeoutMs = 200000;   // wall; only to get out of a blocked case

std::string g_work;

// Runs one choice sequence in a child; returns outcome (Fail for crashes)
Outcome runIsolated( const Test& t, Shm *shm, const std::vector<uint64_t>& in, Found *f, uint64_t timeoutMs, int cpuSeconds = CaseCpuSeconds )
{
    std::string err = g_work + "/shrink.err";
    shm->outcome = Running; shm->caseStartMs = nowMs();
    shm->nchoices = 0;
    pid_t pid = fork();
    if( pid == 0 ) {
        struct rlimit rl = { 0, 0 }; setrlimit( RLIMIT_CORE, &rl );
        redirectStderr( err );
        for( auto& g : inits() ) g();
        cpuLimit( cpuSeconds );
        Ctx c; c.m_mode = Ctx::Replay; c.m_in = in.data(); c.m_nin = in.size();
        Outcome o = runCase( t, shm, c );
        shm->outcome = o;
        _exit( 0 );
    }
    int status = 0; bool killed = false; uint64_t t0 = nowMs();
    for( ;; ) {
        pid_t r = waitpid( pid, &status, WNOHANG );
        if( r == pid ) break;
        if( nowMs() - t0 > timeoutMs ) { kill( pid, SIGKILL ); waitpid( pid, &status, 0 ); killed = true; break; }
        usleep( nowMs() - t0 < 50 ? 200 : 2000 );
    }
    int o = shm->outcome;
    if( o == Running ) {
        if( f ) {
            f->any = true; f->choices.assign( shm->choices, shm->choices + shm->nchoices );
            f->key = killed ? "blocked" : crashKey( status );
            f->msg = killed ? "case did not finish" : f->key == "hang" ? "case did not end within its CPU time limit" : "process died:\n" + readFile( err );
            f->log = "";
        }
        return Fail;
    }
    if( o == Fail && f ) {
        f->any = true; f->choices.assign( shm->choices, shm->choices + shm->nchoices );
        f->key = shm->key; f->msg = shm->msg; f->log = shm->log;
    }
    return static_cast<Outcome>( o );
}

typedef std::vector<std::vector<uint64_t>> Sequence;

// Runs several cases one after another in one fresh child; a failure counts if it occurs in the last one.
// Cases are given by index or, with idx empty, by their choices; with rec, the choices made are written there.
Outcome runSequence( const Test& t, Shm *shm, const std::vector<long>& idx, const Sequence& seq, Found *f, uint64_t timeoutMs, const std::string& rec = "" )
{
    std::string err = g_work + "/sequence.err";
    shm->outcome = Running; shm->nchoices = 0; shm->caseIdx = -1;
    size_t n = idx.empty() ? seq.size() : idx.size();
    pid_t pid = fork();
    if( pid == 0 ) {
        struct rlimit rl = { 0, 0 }; setrlimit( RLIMIT_CORE, &rl );
        redirectStderr( err );
        for( auto& g : inits() ) g();
        std::ofstream r; if( !rec.empty() ) r.open( rec );
        for( size_t i = 0; i < n; ++i ) {
            Ctx c;
            if( idx.empty() ) { c.m_mode = Ctx::Replay; c.m_in = seq[i].data(); c.m_nin = seq[i].size(); }
            else { c.m_mode = Ctx::Random; c.seed( caseSeed( t, idx[i] ) ); }
            cpuLimit( CaseCpuSeconds );
            shm->caseIdx = i;
            Outcome o = runCase( t, shm, c );
            if( r.is_open() ) { r << shm->nchoices; for( uint32_t k = 0; k < shm->nchoices; ++k ) r << ' ' << shm->choices[k]; r << '\n'; r.flush(); }
            shm->outcome = o;
            if( o == Fail ) break;
        }
        _exit( 0 );
    }
    int status = 0; bool killed = false; uint64_t t0 = nowMs();
    for( ;; ) {
        pid_t r = waitpid( pid, &status, WNOHANG );
        if( r == pid ) break;
        if( nowMs() - t0 > timeoutMs ) { kill( pid, SIGKILL ); waitpid( pid, &status, 0 ); killed = true; break; }
        usleep( nowMs() - t0 < 50 ? 200 : 2000 );
    }
    int o = shm->outcome;
    if( killed || shm->caseIdx + 1 != static_cast<long>( n ) ) return Pass;
    if( o == Running && f ) { f->any = true; f->key = crashKey( status ); f->msg = f->key == "hang" ? "case did not end within its CPU time limit" : "process died:\n" + readFile( err ); f->log = ""; }
    if( o == Fail && f ) { f->any = true; f->key = shm->key; f->msg = shm->msg; f->log = shm->log; }
    return o == Running ? Fail : static_cast<Outcome>( o );
}

// A case that failed, but not when run alone, may need what the cases before it left behind in the process.
// Looks for the cases before it that are needed, and shrinks them.
bool sequenceOf( const Test& t, Found& f, int jobs, Sequence& out, uint64_t budgetMs )
{
    Shm *shm = newShm(); uint64_t t0 = nowMs(); Sequence none;
    auto left = [&] { return nowMs() - t0 < budgetMs; };
    auto fails = [&]( const std::vector<long>& idx, const Sequence& seq, int times ) {
        for( int i = 0; i < times; ++i ) {
            Found g; uint64_t used = nowMs() - t0;
            if( used >= 2*budgetMs || runSequence( t, shm, idx, seq, &g, 2*budgetMs - used ) != Fail || g.key != f.key ) return false;
            f.msg = g.msg; f.log = g.log;
        }
        return true;
    };
    std::vector<long> idx; bool ok = false;
    for( long k = 1; !ok && left(); k *= 4 ) {
        idx.clear(); for( long i = f.idx - k*jobs; i <= f.idx; i += jobs ) if( i >= 0 ) idx.push_back( i );
        ok = fails( idx, none, 1 );
        if( k*jobs > f.idx ) break;
    }
    if( ok ) {
        for( size_t k = idx.size()/2; k && left(); k /= 2 )
            for( size_t i = 0; i + k < idx.size() && left(); ) {
                auto v = idx; v.erase( v.begin() + i, v.begin() + i + k );
                if( fails( v, none, 1 ) ) idx = v; else i += k;
            }
        ok = fails( idx, none, 3 );
    }
    if( ok ) {
        std::string rec = g_work + "/sequence.choices"; Found g; runSequence( t, shm, idx, none, &g, 60000, rec );
        std::ifstream r( rec ); size_t n; out.clear();
        while( r >> n ) { std::vector<uint64_t> v( n ); for( auto& x : v ) r >> x; out.push_back( v ); }
        ok = out.size() == idx.size() && fails( {}, out, 3 );
    }
    if( ok && out.size() <= 16 )
        for( bool progress = true; progress && left(); ) {
            progress = false;
            for( size_t m = 0; m < out.size(); ++m ) {
                auto attempt = [&]( const std::vector<uint64_t>& v ) { auto s = out; s[m] = v; if( !fails( {}, s, 1 ) ) return false; out = s; return progress = true; };
                for( size_t k : { 32, 8, 2, 1 } )
                    for( size_t i = 0; i + k <= out[m].size() && left(); ) { auto v = out[m]; v.erase( v.begin() + i, v.begin() + i + k ); if( !attempt( v ) ) i += k; }
                for( size_t i = 0; i < out[m].size() && left(); ++i ) if( out[m][i] ) { auto v = out[m]; v[i] = 0; if( !attempt( v ) && out[m][i] > 1 ) { v[i] = out[m][i]/2; attempt( v ); } }
            }
        }
    if( ok ) ok = fails( {}, out, 3 );
    munmap( shm, sizeof( Shm ) );
    return ok;
}

bool simpler( const std::vector<uint64_t>& a, const std::vector<uint64_t>& b )
{
    if( a.size() != b.size() ) return a.size() < b.size();
    return std::lexicographical_compare( a.begin(), a.end(), b.begin(), b.end() );
}

void shrink( const Test& t, Found& best, uint64_t budgetMs )
{
    Shm *shm = newShm();
    uint64_t t0 = nowMs();
    bool hang = best.key == "hang";
    uint64_t to = 20000;
    auto left = [&]() { return nowMs() - t0 < budgetMs; };
    auto attempt = [&]( const std::vector<uint64_t>& v ) {
        Found f;
        if( runIsolated( t, shm, v, &f, to, hang ? 4 : 10 ) != Fail ) return false;
        if( f.key != best.key || !simpler( f.choices, best.choices ) ) return false;
        if( hang ) f.msg = best.msg;
        best = f; return true;
    };
    bool progress = true;
    while( progress && left() ) {
        progress = false;
        for( size_t k : { size_t( 64 ), size_t( 16 ), size_t( 8 ), size_t( 4 ), size_t( 2 ), size_t( 1 ) } )
            for( size_t i = 0; i + k <= best.choices.size() && left(); ) {
                auto v = best.choices; v.erase( v.begin() + i, v.begin() + i + k );
                if( attempt( v ) ) progress = true; else i += k;
            }
        for( size_t k : { size_t( 8 ), size_t( 1 ) } )
            for( size_t i = 0; i + k <= best.choices.size() && left(); i += k ) {
                auto v = best.choices; bool any = false;
                for( size_t j = i; j < i + k; ++j ) { any = any || v[j]; v[j] = 0; }
                if( any && attempt( v ) ) progress = true;
            }
        for( size_t i = 0; i < best.choices.size() && left(); ++i ) {
            uint64_t lo = 0;
            while( i < best.choices.size() && best.choices[i] > lo && left() ) {
                auto v = best.choices; uint64_t mid = lo + ( v[i] - lo )/2;
                v[i] = mid;
                if( attempt( v ) ) progress = true; else { if( lo == mid ) break; lo = mid; }
                if( best.choices.size() > i && best.choices[i] - lo <= 1 ) {
                    if( best.choices[i] > lo ) { auto w = best.choices; w[i] = lo; if( attempt( w ) ) progress = true; }
                    break;
                }
            }
        }
    }
    munmap( shm, sizeof( Shm ) );
}

std::string jsonStr( const std::string& s )
{
    std::string r = "\"";
    for( unsigned char ch : s ) {
        if( ch == '"' || ch == '\\' ) { r += '\\'; r += ch; }
        else if( ch == '\n' ) r += "\\n";
        else if( ch < 32 || ch >= 127 ) { char b[8]; snprintf( b, 8, "\\u%04x", ch ); r += b; }
        else r += ch;
    }
    return r + "\"";
}

struct TestResult {
    const Test *t; uint64_t planned = 0, done = 0, discarded = 0, nontrivial = 0; size_t distinct = 0;
    std::map<std::string, uint64_t> labels; std::vector<std::string> samples;
    Found found; Sequence sequence; int replays = 0; uint64_t wallMs = 0; bool budgetHit = false;
};

TestResult runTest( const Test& t, int jobs, double scale, uint64_t deadlineMs )
{
    TestResult R; R.t = &t;
    long total = t.fixedInput ? 1 : std::max( 1L, static_cast<long>( ( g_thorough ? t.thorough : t.quick )*scale ) );
    R.planned = total;
    if( t.fixedInput ) jobs = 1;
    uint64_t t0 = nowMs();
    struct W { Shm *shm; pid_t pid; bool alive; std::string err; };
    std::vector<W> ws( jobs );
    auto spawn = [&]( int w, long from ) {
        ws[w].shm->outcome = Pass; ws[w].shm->caseStartMs = nowMs();
        pid_t pid = fork();
        if( pid == 0 ) worker( t, ws[w].shm, from, jobs, total, ws[w].err );
        ws[w].pid = pid; ws[w].alive = true;
    };
    for( int w = 0; w < jobs; ++w ) {
        ws[w].shm = newShm(); ws[w].err = g_work + "/w" + std::to_string( w ) + ".err";
        spawn( w, w );
    }
    std::vector<Found> founds;
    int alive = jobs;
    bool stopping = false;
    uint64_t stopAt = 0;
    while( alive ) {
        bool any = false;
        for( int w = 0; w < jobs; ++w ) {
            auto& W_ = ws[w];
            if( !W_.alive ) continue;
            int status = 0; bool hung = false;
            pid_t r = waitpid( W_.pid, &status, WNOHANG );
            uint64_t now = nowMs();
            if( r == 0 ) {
                uint64_t st = W_.shm->caseStartMs;
                if( now > st + CaseTimeoutMs && W_.shm->outcome == Running ) { kill( W_.pid, SIGKILL ); waitpid( W_.pid, &status, 0 ); hung = true; }
                else if( now > deadlineMs && !stopping ) {
                    // out of budget: give up on what is left, which is not a verdict
                    kill( W_.pid, SIGKILL ); waitpid( W_.pid, &status, 0 );
                    W_.alive = false; --alive; any = true; R.budgetHit = true; continue;
                }
                else if( stopping && now > stopAt ) { kill( W_.pid, SIGKILL ); waitpid( W_.pid, &status, 0 ); W_.alive = false; --alive; continue; }
                else continue;
            }
            any = true; W_.alive = false; --alive;
            if( !hung && WIFEXITED( status ) && WEXITSTATUS( status ) == 0 ) continue;
            Found f; f.any = true; f.idx = W_.shm->caseIdx;
            f.choices.assign( W_.shm->choices, W_.shm->choices + W_.shm->nchoices );
            if( !hung && W_.shm->outcome == Fail ) { f.key = W_.shm->key; f.msg = W_.shm->msg; f.log = W_.shm->log; }
            else { f.key = hung ? "blocked" : crashKey( status ); f.msg = f.key == "hang" ? "case did not end within its CPU time limit" : "process died:\n" + readFile( W_.err ); }
            if( hung ) { R.budgetHit = true; continue; }
            founds.push_back( f );
            if( !stopping ) { stopping = true; stopAt = nowMs() + 300; }
        }
        if( !any ) usleep( 3000 );
    }
    std::unordered_set<uint64_t> hs;
    for( auto& W_ : ws ) {
        Shm *s = W_.shm;
        R.done += s->done; R.discarded += s->discarded; R.nontrivial += s->nontrivial;
        for( uint64_t i = 0; i < s->nhashes; ++i ) hs.insert( s->hashes[i] );
        for( uint32_t i = 0; i < s->nlabels; ++i ) R.labels[s->labels[i]] += s->labelCount[i];
        if( R.samples.size() < 2 ) for( uint32_t i = 0; i < s->nsamples && R.samples.size() < 2; ++i ) R.samples.push_back( s->samples[i] );
        munmap( s, sizeof( Shm ) );
    }
    R.distinct = hs.size();
    R.done += founds.size();
    if( !founds.empty() ) {
        std::sort( founds.begin(), founds.end(), []( const Found& a, const Found& b ) { return a.idx < b.idx; } );
        // A failure counts only if it replays, three times out of three, in a fresh process
        int tries = 0;
        for( auto& f : founds ) {
            Shm *shm = newShm();
            auto replays = [&]( const Found& x ) {
                int k = 0;
                for( int i = 0; i < 3; ++i ) { Found g; if( runIsolated( t, shm, x.choices, &g, CaseTimeoutMs ) == Fail && g.key != "blocked" ) ++k; else break; }
                return k;
            };
            int k = replays( f );
            if( k == 3 ) {
                Found orig = f;
                if( !t.fixedInput ) shrink( t, f, 45000 );
                if( f.choices != orig.choices && replays( f ) != 3 ) f = orig;
                R.found = f; R.found.idx = orig.idx; R.replays = 3;
                munmap( shm, sizeof( Shm ) );
                break;
            }
            if( f.key != "blocked" && tries++ < 2 && sequenceOf( t, f, jobs, R.sequence, 60000 ) ) {
                f.msg = "(only after the other cases of the replay file, run in the same process) " + f.msg;
                R.found = f; R.replays = 3; ++R.labels["history-dependent-failure"];
                munmap( shm, sizeof( Shm ) );
                break;
            }
            std::cerr << "note: " << t.name << " case " << f.idx << " failed once (" << f.key << ": " << f.msg << ") but does not replay\n";
            ++R.labels["unreplayable-failure"];
            munmap( shm, sizeof( Shm ) );
        }
    }
    R.wallMs = nowMs() - t0;
    return R;
}

} // namespace
} // namespace pbt

using namespace pbt;

#ifdef PBT_FUZZER
extern "C" int LLVMFuzzerTestOneInput( const uint8_t *data, size_t size )
{
    static Shm *shm = nullptr;
    static std::vector<const Test*> ts;
    if( !shm ) {
        shm = newShm();
        const char *only = getenv( "PBT_FUZZ_TEST" );
        for( auto& t : tests() ) if( !t.fixedInput && ( !only || !strcmp( only, t.name ) ) ) ts.push_back( &t );
        for( auto& f : inits() ) f();
    }
    if( ts.empty() || size < 2 ) return 0;
    const Test& t = *ts[ data[0] % ts.size() ];
    Ctx c; c.m_mode = Ctx::Bytes; c.m_bytes = data + 1; c.m_nbytes = size - 1;
    Outcome o = runCase( t, shm, c );
    if( o == Fail ) {
        const char *dir = getenv( "PBT_FUZZ_OUT" );
        std::ofstream f( std::string( dir ? dir : "." ) + "/fuzz-failure.replay" );
        f << "test " << t.name << "\nchoices " << shm->nchoices;
        for( uint32_t i = 0; i < shm->nchoices; ++i ) f << " " << shm->choices[i];
        f << "\n# " << shm->key << ": " << shm->msg << "\n";
        f.close();
        fprintf( stderr, "FUZZ FAILURE %s %s: %s\n", t.name, shm->key, shm->msg );
        abort();
    }
    return 0;
}
#else
int main( int argc, char **argv )
{
    std::string out, replay, only, rdir = ".", bytes; double scale = 1; int jobs = 8; uint64_t budgetS = 300; bool list = false; 
    for( int i = 1; i < argc; ++i ) {
        std::string a = argv[i];
        auto nx = [&]() { return std::string( i + 1 < argc ? argv[++i] : "" ); };
        if( a == "--seed" ) g_seed = strtoull( nx().c_str(), nullptr, 10 );
        else if( a == "--thorough" ) g_thorough = true;
        else if( a == "--out" ) out = nx();
        else if( a == "--work" ) g_work = nx();
        else if( a == "--replays" ) rdir = nx();
        else if( a == "--replay" ) replay = nx();
        else if( a == "--bytes" ) bytes = nx();
        else if( a == "--only" ) only = nx();
        else if( a == "--scale" ) scale = atof( nx().c_str() );
        else if( a == "--jobs" ) jobs = atoi( nx().c_str() );
        else if( a == "--budget" ) budgetS = strtoull( nx().c_str(), nullptr, 10 );
        else if( a == "--list" ) list = true;
        else { std::cerr << "unknown option " << a << "\n"; return 2; }
    }
    if( g_work.empty() ) g_work = ".";
    if( list ) { for( auto& t : tests() ) std::cout << t.name << "\n"; return 0; }
    if( !replay.empty() ) {
        std::ifstream f( replay ); std::string word, name; std::vector<uint64_t> ch; Sequence seq; bool haveChoices = false;
        while( f >> word ) {
            if( word == "test" ) f >> name;
            else if( word == "choices" ) { size_t n; f >> n; ch.resize( n ); for( auto& x : ch ) f >> x; haveChoices = true; seq.push_back( ch ); }
            else { std::string rest; std::getline( f, rest ); }
        }
        for( auto& t : tests() ) if( name == t.name && haveChoices ) {
            Shm *shm = newShm(); Found fd;
            Outcome o = seq.size() > 1 ? runSequence( t, shm, {}, seq, &fd, 600000 ) : runIsolated( t, shm, ch, &fd, 300000 );
            std::cout << ( o == Fail ? "FAIL " : o == Discarded ? "DISCARD " : "PASS " ) << name << "\n";
            if( o == Fail ) std::cout << fd.key << ": " << fd.msg << "\ncase: " << fd.log << "\n";
            else std::cout << "case: " << shm->log << "\n";
            if( !out.empty() && o == Fail ) { std::ofstream j( out ); j << "{\"key\": " << jsonStr( fd.key ) << ", \"msg\": " << jsonStr( fd.msg ) << "}\n"; }
            return o == Fail ? 1 : 0;
        }
        std::cerr << "no such test in replay file: " << name << "\n";
        return 2;
    }
    uint64_t deadline = nowMs() + budgetS*1000;
    std::ostringstream j;
    j << "{\"tests\": [";
    int nfail = 0; bool first = true;
    for( auto& t : tests() ) {
        if( !only.empty() && only != t.name ) continue;
        TestResult r = runTest( t, jobs, scale, deadline );
        j << ( first ? "" : "," ) << "\n{\"name\": " << jsonStr( t.name ) << ", \"rule\": " << jsonStr( t.rule ) << ", \"fixed\": " << ( t.fixedInput ? "true" : "false" )
          << ", \"planned\": " << r.planned << ", \"done\": " << r.done << ", \"discarded\": " << r.discarded << ", \"nontrivial\": " << r.nontrivial
          << ", \"distinct\": " << r.distinct << ", \"wall_ms\": " << r.wallMs << ", \"budget_hit\": " << ( r.budgetHit ? "true" : "false" ) << ", \"labels\": {";
        bool f1 = true; for( auto& l : r.labels ) { j << ( f1 ? "" : ", " ) << jsonStr( l.first ) << ": " << l.second; f1 = false; }
        j << "}, \"samples\": ["; f1 = true;
        for( auto& s : r.samples ) { j << ( f1 ? "" : ", " ) << jsonStr( s ); f1 = false; }
        j << "]";
        if( r.found.any ) {
            ++nfail;
            std::string rf = rdir + "/" + t.name + ".replay";
            std::ofstream f( rf );
            f << "test " << t.name;
            if( r.sequence.empty() ) r.sequence.push_back( r.found.choices );
            for( auto& v : r.sequence ) { f << "\nchoices " << v.size(); for( auto x : v ) f << " " << x; }
            f << "\n# seed " << g_seed << " case " << r.found.idx << "\n# " << r.found.key << ": " << r.found.msg << "\n# case: " << r.found.log << "\n";
            j << ", \"failure\": {\"key\": " << jsonStr( r.found.key ) << ", \"msg\": " << jsonStr( r.found.msg ) << ", \"case\": " << jsonStr( r.found.log )
              << ", \"replay\": " << jsonStr( rf ) << "}";
        }
        j << "}"; first = false;
        std::cerr << t.name << ": " << r.done << "/" << r.planned << " cases, " << r.discarded << " discarded, " << r.nontrivial << " nontrivial, "
                  << r.wallMs << " ms" << ( r.budgetHit ? " BUDGET" : "" ) << ( r.found.any ? " FAILED " + r.found.key + ": " + r.found.msg.substr( 0, 2500 ) + "\n   case: " + r.found.log.substr( 0, 3000 ) : "" ) << "\n";
        if( getenv( "PBT_LABELS" ) ) for( auto& l : r.labels ) std::cerr << "     " << l.first << ": " << l.second << "\n";
        if( nfail >= 3 ) break;
    }
    j << "\n]}\n";
    if( !out.empty() ) { std::ofstream o( out ); o << j.str(); }
    return nfail ? 1 : 0;
}
#endif
