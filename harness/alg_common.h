// Generated mappings with an independent reference evaluation and derivative
#pragma once
#include "pbt.h"
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <vector>
#include "ode_num_int/alg/interfaces/VectorBijectiveMapping.h"
#include "ode_num_int/la/SparseMatrixTemplate.h"

using namespace ctm; using namespace math;
using pbt::close; using pbt::str;
typedef VectorData<double> VD;
typedef VectorTemplate<VD> V;
typedef std::vector<double> Vec;
typedef std::vector<unsigned> Ids;
inline V toV( const Vec& x ) { V r( x.size() ); for( size_t i = 0; i < x.size(); ++i ) r[i] = x[i]; return r; }
inline Vec toVec( const V& x ) { Vec r( x.size() ); for( size_t i = 0; i < r.size(); ++i ) r[i] = x[i]; return r; }
inline bool same( const V& a, const Vec& b ) { if( a.size() != b.size() ) return false; for( size_t i = 0; i < b.size(); ++i ) if( !( a[i] == b[i] ) ) return false; return true; }
inline double norm( const Vec& v ) { double r = 0; for( double x : v ) { if( !( std::fabs( x ) <= r ) ) r = std::fabs( x ); if( std::isnan( r ) ) return r; } return r; }

// y_i = k_i + sum a_ij x_j + sum b_ijk x_j x_k
struct Poly
{
    struct Term { unsigned i; double a; int j, k; };   // j == -1: constant; k == -1: linear
    unsigned n = 0, m = 0; std::vector<Term> t;
    Vec operator()( const Vec& x ) const
    {
        Vec y( m, 0. );
        for( auto& e : t ) y[e.i] += e.a*( e.j < 0 ? 1 : x[e.j] )*( e.k < 0 ? 1 : x[e.k] );
        return y;
    }
    std::vector<Vec> jac( const Vec& x ) const
    {
        std::vector<Vec> J( m, Vec( n, 0. ) );
        for( auto& e : t ) {
            if( e.j >= 0 ) J[e.i][e.j] += e.a*( e.k < 0 ? 1 : x[e.k] );
            if( e.k >= 0 ) J[e.i][e.k] += e.a*x[e.j];
        }
        return J;
    }
    std::set<std::pair<unsigned,unsigned>> pattern() const
    {
        std::set<std::pair<unsigned,unsigned>> p;
        for( auto& e : t ) { if( e.j >= 0 ) p.insert( { e.i, unsigned( e.j ) } ); if( e.k >= 0 ) p.insert( { e.i, unsigned( e.k ) } ); }
        return p;
    }
    std::string str() const
    {
        std::ostringstream s; s.precision( 17 ); s << "f:R^" << n << "->R^" << m << " {";
        for( auto& e : t ) { s << " f" << e.i << "+=" << e.a; if( e.j >= 0 ) s << "*x" << e.j; if( e.k >= 0 ) s << "*x" << e.k; }
        s << " }"; return s.str();
    }
};

class PolyMapping : public VectorMapping<VD>
{
public:
    Poly p; Ids iids, oids; mutable int calls = 0;
    unsigned inputSize() const override { return p.n; }
    unsigned outputSize() const override { return p.m; }
    void map( V& dst, const V& x ) const override
    {
        ++calls;
        this->vectorMappingPreObservers( x, this );
        if( x.size() != p.n ) throw std::runtime_error( "mapping argument has wrong size" );
        Vec y = p( toVec( x ) );
        dst.resize( p.m ); for( unsigned i = 0; i < p.m; ++i ) dst[i] = y[i];
        this->vectorMappingPostObservers( x, dst, this );
    }
    Ids inputIds() const override { return iids; }
    Ids outputIds() const override { return oids; }
    using VectorMapping<VD>::map;
};

inline Poly genPoly( pbt::Ctx& c, unsigned n, unsigned m, int maxTerms, bool integer = true )
{
    Poly p; p.n = n; p.m = m;
    if( m == 0 ) return p;
    int k = c.range( 0, maxTerms );
    for( int i = 0; i < k; ++i ) {
        Poly::Term t; t.i = c.range( 0, m-1 ); t.a = integer ? c.range( 1, 9 )*( c.flip() ? -1 : 1 ) : c.nz( 4 ); t.j = t.k = -1;
        int kind = c.pickw( { 5, 1, 3 } );
        if( n > 0 && kind != 1 ) { t.j = c.range( 0, n-1 ); if( kind == 2 ) t.k = c.range( 0, n-1 ); }
        p.t.push_back( t );
    }
    return p;
}
