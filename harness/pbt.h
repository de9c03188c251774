// pbt.h - small property-based testing engine (choice-sequence based, forked workers, shrinking).
//
// Every random decision of a test goes through Ctx::draw(), so that a case *is* its choice
// sequence: replaying the sequence replays the case, and a failing case is shrunk by
// simplifying the sequence (deleting, zeroing and lowering choices), as Hypothesis does.
#pragma once
#include <cstdint>
#include <cmath>
#include <cstring>
#include <functional>
#include <limits>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Failure { std::string key, msg; };
struct Discard {};

class Ctx {
public:
    enum Mode { Random, Replay, Bytes };
    // -- raw choices ------------------------------------------------------------------
    uint64_t draw( uint64_t max );               // uniform in 0..max, both included
    // -- derived generators -----------------------------------------------------------
    // mostly small, rarely large
    int size( int lo, int hi, int big, int den = 60 ) { return chance( 1, den ) ? range( hi, big ) : range( lo, hi ); }
    int range( int lo, int hi ) { return lo + static_cast<int>( draw( static_cast<uint64_t>( hi - lo ) ) ); }
    bool flip() { return draw( 1 ) == 1; }
    bool chance( int num, int den ) { return static_cast<int>( draw( den - 1 ) ) >= den - num; } // shrinks to false
    double unit() { return draw( ( 1ull << 53 ) - 1 ) * ( 1.0 / 9007199254740992.0 ); }          // [0,1)
    // in [lo, hi); zero, if within, now and then
    double real( double lo, double hi ) { double u = unit(); if( lo < 0 && hi > 0 ) { if( u < 1./24 ) return 0; u = ( u - 1./24 )*24/23; } return lo + ( hi - lo )*u; }
    double logreal( double lo, double hi ) { return lo*std::exp( std::log( hi/lo )*unit() ); }
    // A number in [-s, s]: small integers, dyadic fractions, arbitrary doubles; shrinks to 0
    double num( double s = 8 );
    // The same, not zero
    double nz( double s = 8 );
    template< class T > const T& pick( const std::vector<T>& v ) { return v[ draw( v.size() - 1 ) ]; }
    int pickw( std::initializer_list<int> weights );
    std::vector<double> nums( size_t n, double s = 8 ) { std::vector<double> r( n ); for( auto& x : r ) x = num( s ); return r; }
    std::vector<unsigned> perm( unsigned n );
    // -- verdicts ---------------------------------------------------------------------
    [[noreturn]] void fail( const std::string& key, const std::string& msg ) { throw Failure{ key, msg }; }
    [[noreturn]] void discard() { throw Discard(); }
    void nontrivial( bool yes = true ) { m_nontrivial = m_nontrivial || yes; }
    void label( const std::string& l, bool yes = true ) { if( yes ) m_labels.push_back( l ); }
    std::ostringstream log;                      // human readable description of the case

    Mode m_mode = Random;
    uint64_t m_rng[4];
    const uint64_t *m_in = nullptr; size_t m_nin = 0;        // Replay
    const uint8_t *m_bytes = nullptr; size_t m_nbytes = 0;   // Bytes
    uint64_t *m_out = nullptr; uint32_t *m_nout = nullptr; size_t m_maxOut = 0;
    size_t m_pos = 0;
    bool m_nontrivial = false;
    bool m_thorough = false;
    std::vector<std::string> m_labels;
    void seed( uint64_t s );
};

struct Test {
    const char *name;
    int quick, thorough;      // number of cases per tier
    const char *rule;         // what a case is, and what makes it non-trivial
    std::function<void( Ctx& )> body;
    bool fixedInput;          // a regression / known-finding program: one case, no choices
};

std::vector<Test>& tests();
struct Registrar { Registrar( Test t ) { tests().push_back( t ); } };

// Runs once in each worker process before any case
std::vector<std::function<void()>>& inits();

inline bool close( double a, double b, double scale, double rel )
{
    if( a == b ) return true;
    if( std::isnan( a ) || std::isnan( b ) ) return std::isnan( a ) && std::isnan( b );
    return std::fabs( a - b ) <= rel*scale;
}

template< class V > std::string str( const V& v )
{
    std::ostringstream s; s.precision( 17 ); s << "[";
    bool first = true;
    for( auto x : v ) { s << ( first ? "" : ", " ) << x; first = false; }
    s << "]"; return s.str();
}

} // namespace pbt

#define PBT_CAT2( a, b ) a##b
#define PBT_CAT( a, b ) PBT_CAT2( a, b )
// PBT( name, quickCases, thoroughCases, "rule" ) { ... uses c ... }
#define PBT( nm, q, t, rule ) \
    static void pbt_fn_##nm( pbt::Ctx& c ); \
    static pbt::Registrar pbt_reg_##nm( pbt::Test{ #nm, q, t, rule, pbt_fn_##nm, false } ); \
    static void pbt_fn_##nm( pbt::Ctx& c )
#define PBT_FIXED( nm, rule ) \
    static void pbt_fn_##nm( pbt::Ctx& c ); \
    static pbt::Registrar pbt_reg_##nm( pbt::Test{ #nm, 1, 1, rule, pbt_fn_##nm, true } ); \
    static void pbt_fn_##nm( pbt::Ctx& c )

#define EXPECT( cond, key, msg ) \
    do { if( !( cond ) ) { std::ostringstream pbt_s; pbt_s.precision( 17 ); pbt_s << msg << "   [" #cond "]"; c.fail( key, pbt_s.str() ); } } while( 0 )

// expr must throw a std::exception (or anything): the library's clean rejection
#define EXPECT_THROW( stmt, key, msg ) \
    do { bool pbt_thrown = false; try { stmt; } catch( const pbt::Failure& ) { throw; } catch( const std::exception& ) { pbt_thrown = true; } \
         if( !pbt_thrown ) { std::ostringstream pbt_s; pbt_s.precision( 17 ); pbt_s << msg << "   [no exception from: " #stmt "]"; c.fail( key, pbt_s.str() ); } } while( 0 )
