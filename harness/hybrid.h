// Generated systems with phases and zero functions
#pragma once
#include "ode_common.h"

// a system with phases: every event toggles the phase bits its transition names, and may change some variables
struct Hybrid
{
    Smooth s; bool constant = false; std::vector<unsigned> flags; std::vector<Vec> a; Vec b, d, nl; std::vector<Vec> w; std::vector<std::pair<unsigned,double>> jump;   // zf_i = a.x + b t + d + nl*x0^2; w_i added to the derivative in phase i
    std::vector<int> mode;
    Vec f( double t, const Vec& x, const std::vector<int>& m ) const { Vec r = s.f( t, x ); for( size_t i = 0; i < m.size(); ++i ) if( m[i] ) for( unsigned j = s.nd; j < r.size(); ++j ) r[j] += m[i]*w[i][j]; return r; }
    Vec zf( double t, const Vec& x ) const { Vec r( flags.size() ); for( size_t i = 0; i < r.size(); ++i ) { r[i] = b[i]*t + d[i] + ( nl[i] != 0 ? nl[i]*x[0]*x[0] : 0. ); for( size_t j = 0; j < x.size(); ++j ) if( a[i][j] != 0 ) r[i] += a[i][j]*x[j]; } return r; }
    std::string str() const { std::ostringstream o; o.precision( 17 ); o << s.str(); for( size_t i = 0; i < flags.size(); ++i ) { o << "\n zf" << i << " flags " << flags[i] << ": " << str2( a[i] ) << "x + " << b[i] << "t + " << d[i]; if( nl[i] != 0 ) o << " + " << nl[i] << "x0^2"; o << "; phase adds " << str2( w[i] ); if( jump[i].second != 1 ) o << "; x" << jump[i].first << " *= " << jump[i].second; } return o.str(); }
    static std::string str2( const Vec& v ) { return pbt::str( v ); }
};
inline Hybrid genHybrid( pbt::Ctx& c, bool constant )
{
    Hybrid g; g.constant = constant; auto coef = [&]( double q ) { return constant ? c.range( -4, 4 )*.5 : c.num( q ); };
    if( constant ) { unsigned n = c.range( 1, 3 ); g.s.n1 = n; g.s.A.assign( n, Vec( n, 0. ) ); g.s.w = g.s.u = g.s.om = g.s.k = Vec( n, 0. ); g.s.p.assign( n, 0 ); g.s.g.assign( n, 0 ); for( auto& k : g.s.k ) k = coef( 2 ); }
    else g.s = genSmooth( c, 4, 2 );
    unsigned n = g.s.n(), nz = c.range( 1, 3 ); int jv = c.flip() ? c.range( 0, n-1 ) : -1;      // variable that events change; only recomputed functions may depend on it
    for( unsigned i = 0; i < nz; ++i ) {
        unsigned fl = c.pick( std::vector<unsigned>{ 3, 3, 1, 2 } ) | ( c.flip() ? 4 : 0 ); g.flags.push_back( fl ); Vec a( n, 0. ); for( unsigned j = 0; j < n; ++j ) if( ( fl & 4 ) || int( j ) != jv ) if( c.chance( 2, 3 ) ) a[j] = coef( 2 );
        g.a.push_back( a ); g.b.push_back( c.flip() ? coef( 1 ) : 0 ); g.d.push_back( coef( 2 ) ); g.nl.push_back( !constant && jv != 0 && c.chance( 1, 4 ) ? c.nz( 1 ) : 0 ); Vec w( n, 0. ); for( unsigned j = 0; j < n; ++j ) if( c.flip() ) w[j] = coef( 3 ); g.w.push_back( w );
        g.jump.push_back( { jv < 0 ? 0 : jv, jv < 0 || c.flip() ? 1. : c.pick( std::vector<double>{ -1, -.5, 0, 2 } ) } );
    }
    g.mode.assign( nz, 0 ); return g;
}
