#pragma once
#include "pbt.h"
#include "ode_num_int/LUFactorizer.h"
#include "ode_num_int/lu/util.h"
#include "ode_num_int/SparseMatrixTemplate.h"
#include <map>
using namespace ctm::math;
using namespace ctm::math::sparse;
typedef LUFactorizer<double> LU;
typedef SparseMatrix<double> S;
typedef SparseMatrixTemplate< SparseMatrixFastData<double> > F;
typedef std::pair<unsigned,unsigned> I;
typedef std::map<I,double> Map;
using pbt::close;
typedef std::vector<double> Vec;

// A square matrix that can be factorized without pivoting; growth bounds the elements of |L||U|
struct A {
    unsigned n = 0; Map d; double growth = 1; const char *kind = "";
    double get( unsigned i, unsigned j ) const { auto it = d.find( I( i, j ) ); return it == d.end() ? 0 : it->second; }
    Vec mul( const Vec& x ) const { Vec y( n, 0 ); for( auto& e : d ) y[e.first.first] += e.second*x[e.first.second]; return y; }
    double norm() const { double s = 0; for( unsigned i = 0; i < n; ++i ) { double t = 0; for( unsigned j = 0; j < n; ++j ) t += std::fabs( get( i, j ) ); s = std::max( s, t ); } return s; }
    S sparse() const { S s( n, n ); for( auto& e : d ) s.at( e.first ) = e.second; return s; }
    bool fillIn() const {   // the profile has positions to the right of the last stored element of a row
        for( unsigned c = 0; c < n; ++c ) { unsigned q = n; for( unsigned r = 0; r < n; ++r ) if( d.count( I( r, c ) ) ) { q = r; break; }
            for( unsigned r = q; r < c; ++r ) { bool later = false; for( unsigned k = c; k < n; ++k ) later = later || d.count( I( r, k ) ); if( !later ) return true; } }
        return false;
    }
    std::string str() const { std::ostringstream s; s.precision( 17 ); s << kind << " " << n << "x" << n << "{"; for( auto& x : d ) s << "(" << x.first.first << "," << x.first.second << ")=" << x.second << " "; s << "}"; return s.str(); }
};

inline bool patternBit( pbt::Ctx& c, int shape, unsigned i, unsigned j, unsigned n, int bw )
{
    switch( shape ) {
        case 0: return c.chance( 1, 3 );                           // sparse
        case 1: return true;                                       // dense
        case 2: return (int)( i > j ? i-j : j-i ) <= bw;           // banded
        case 3: return i == 0 || j == 0 || c.chance( 1, 8 );       // arrow, first row and column
        case 4: return i == n-1 || j == n-1 || c.chance( 1, 8 );   // arrow, last row and column
        case 5: return i < j ? c.chance( 1, 3 ) : c.chance( 1, 8 );
        default: return i > j ? c.chance( 1, 2 ) : c.chance( 1, 5 );
    }
}
// values for a given pattern: (weakly off-diagonal) diagonally dominant by rows or by columns
inline void fillDominant( pbt::Ctx& c, A& a )
{
    bool byRow = c.flip(); Vec sum( a.n, 0 );
    for( auto& e : a.d ) if( e.first.first != e.first.second ) { e.second = c.num( 4 ); sum[byRow ? e.first.first : e.first.second] += std::fabs( e.second ); }
    for( unsigned i = 0; i < a.n; ++i ) { double x = sum[i] + 0.5 + 2*c.unit(); a.d[I( i, i )] = c.flip() ? -x : x; }
    a.growth = 4*a.norm(); a.kind = "dominant";
}
inline A genA( pbt::Ctx& c, unsigned nmax, unsigned nmin = 1 )
{
    A a; a.n = c.range( nmin, nmax ); int shape = c.range( 0, 6 ), bw = c.range( 0, 3 );
    int kind = c.pickw( { 4, 2, 1 } );
    if( kind == 0 ) {
        for( unsigned i = 0; i < a.n; ++i ) for( unsigned j = 0; j < a.n; ++j ) if( i != j && patternBit( c, shape, i, j, a.n, bw ) ) a.d[I( i, j )] = 0;
        fillDominant( c, a );
    }
    else if( kind == 1 ) {   // product of well-scaled sparse triangular factors: not dominant, diagonal elements may even vanish
        std::vector<Vec> L( a.n, Vec( a.n, 0 ) ), U = L;
        for( unsigned i = 0; i < a.n; ++i ) { for( unsigned j = 0; j < a.n; ++j ) {
                if( i > j && patternBit( c, shape, i, j, a.n, bw ) ) L[i][j] = c.num( 1 );
                if( i < j && patternBit( c, shape, i, j, a.n, bw ) ) U[i][j] = c.num( 1 ); }
            L[i][i] = 1; double x = 1 + c.unit(); U[i][i] = c.flip() ? -x : x; }
        for( unsigned i = 0; i < a.n; ++i ) for( unsigned j = 0; j < a.n; ++j ) { double s = 0, ab = 0; for( unsigned k = 0; k < a.n; ++k ) { s += L[i][k]*U[k][j]; ab += std::fabs( L[i][k]*U[k][j] ); }
            a.growth = std::max( a.growth, ab*a.n ); if( s != 0 || i == j ) a.d[I( i, j )] = s; }
        // a structurally missing diagonal element is fine as long as the profile covers it
        for( unsigned i = 0; i < a.n; ++i ) if( a.get( i, i ) == 0 && a.d.count( I( i, i ) ) ) { bool l = false, u = false; for( unsigned k = 0; k < i; ++k ) { l = l || a.d.count( I( i, k ) ); u = u || a.d.count( I( k, i ) ); } if( l && u && c.flip() ) a.d.erase( I( i, i ) ); }
        a.kind = "product";
    }
    else {   // symmetric positive definite, B^T B + I on a sparse B
        std::vector<Vec> B( a.n, Vec( a.n, 0 ) ); for( auto& r : B ) for( auto& x : r ) if( c.chance( 1, 3 ) ) x = c.num( 2 );
        for( unsigned i = 0; i < a.n; ++i ) for( unsigned j = 0; j < a.n; ++j ) { double s = i == j; for( unsigned k = 0; k < a.n; ++k ) s += B[k][i]*B[k][j]; if( s != 0 ) a.d[I( i, j )] = s; }
        a.kind = "spd"; a.growth = 8*a.norm();
    }
    return a;
}
