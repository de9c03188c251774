// Generated ODE systems (with exact or independent reference solutions) and solvers
#pragma once
#ifndef ODE_KEEP_REGEX
#define CTM_UTIL_LEX_IDNUM_DISABLE_REGEX        // the library's own switch; std::regex dominates the run time under sanitizers (parameter syntax is the subject of C18)
#endif
#include "alg_common.h"
#include "ode_num_int/OdeNumIntClassesRegistrator.h"
#include "ode_num_int/OdeTestModelClassesRegistrator.h"

typedef OdeSolver<VD> Solver; typedef OptionalParameters::Parameters Params; typedef OdeSolverPostObserverArg<VD> PostArg; typedef OdeRhs<VD> Rhs;
static OdeNumIntClassesRegistrator<VD> g_reg; static testmodels::OdeTestModelClassesRegistrator<VD> g_regModels;
typedef std::function<Vec( double, const Vec& )> Fn;

class TestRhs : public OdeRhs<VD>
{
public:
    unsigned nd = 0, n1 = 0; Fn f; std::string text;
    std::vector<unsigned> flags; Fn zf; std::function<void( const int*, double, Vec& )> sw; std::function<bool( double&, Vec& )> trunc;
    mutable long calls = 0, zcalls = 0; mutable bool record = false; mutable std::vector<std::pair<double,Vec>> args, before; mutable std::vector<Vec> before2;
    struct Switch { std::vector<int> tr; double t; Vec x; }; std::vector<Switch> switches;
    unsigned secondOrderVarCount() const override { return nd; }
    unsigned firstOrderVarCount() const override { return n1; }
    unsigned zeroFuncCount() const override { return flags.size(); }
    std::vector<unsigned> zeroFuncFlags() const override { return flags; }
    void rhs( V& dst, double t, const V& x ) const override
    {
        ++calls; this->odeRhsPreObservers( t, x, this );
        if( x.size() != varCount() ) throw std::runtime_error( "right hand side called with a state of wrong size" );
        Vec v = toVec( x ); if( record ) args.push_back( { t, v } ); dst = toV( f( t, v ) ); this->odeRhsPostObservers( t, x, dst, this );
    }
    using OdeRhs<VD>::rhs;
    void zeroFunctions( V& dst, double t, const V& x ) const override { ++zcalls; dst = toV( zf( t, toVec( x ) ) ); }
    void switchPhaseState( const int *tr, double t, V& x ) override
    { Switch s; s.tr.assign( tr, tr + flags.size() ); s.t = t; s.x = toVec( x ); switches.push_back( s ); if( sw ) { Vec v = toVec( x ); sw( tr, t, v ); for( unsigned i = 0; i < v.size(); ++i ) x[i] = v[i]; } }
    void beforeStep( double t, const V& x ) const override { if( record ) before.push_back( { t, toVec( x ) } ); }
    void beforeStep2( const V& r ) const override { if( record ) before2.push_back( toVec( r ) ); }
    bool truncateStep( double& t, V& x ) const override { if( !trunc ) return false; Vec v = toVec( x ); bool r = trunc( t, v ); for( unsigned i = 0; i < v.size(); ++i ) x[i] = v[i]; return r; }
};
inline std::shared_ptr<TestRhs> makeRhs( unsigned nd, unsigned n1, Fn f, const std::string& text = "" ) { auto r = std::make_shared<TestRhs>(); r->nd = nd; r->n1 = n1; r->f = f; r->text = text; return r; }
inline std::shared_ptr<Solver> makeSolver( const std::string& id, const Params& p = Params() ) { auto s = Factory<Solver>::newInstance( id ); if( !p.empty() ) s->setParameters( p ); return s; }

// x_i' = sum of monomials a t^k prod x_j^e of weighted degree below the weight of x_i: the solution is a polynomial of degree at most the weight, and a
// method of order p integrates it exactly if no weight exceeds p (all elementary differentials of higher order vanish), whatever the step size.
struct Nil
{
    struct Mono { double a; int k; std::vector<unsigned> js; };
    unsigned nd = 0, n1 = 0; std::vector<int> w; std::vector<std::vector<Mono>> p;      // for V and Z; U' = V
    unsigned n() const { return 2*nd + n1; }
    Vec f( double t, const Vec& x ) const
    {
        Vec r( n() ); for( unsigned i = 0; i < nd; ++i ) r[i] = x[nd+i];
        for( unsigned i = nd; i < n(); ++i ) { double s = 0; for( auto& m : p[i] ) { double v = m.a; for( int q = 0; q < m.k; ++q ) v *= t; for( unsigned j : m.js ) v *= x[j]; s += v; } r[i] = s; }
        return r;
    }
    typedef std::vector<long double> LP;
    static LP mul( const LP& a, const LP& b ) { LP r( a.size() + b.size() - 1, 0 ); for( size_t i = 0; i < a.size(); ++i ) for( size_t j = 0; j < b.size(); ++j ) r[i+j] += a[i]*b[j]; return r; }
    // solution at t0+h; magnitudes of the terms involved in mag
    Vec exact( double t0, const Vec& x0, double h, Vec& mag ) const { mag = solve( t0, x0, h, true ); return solve( t0, x0, h, false ); }
    Vec solve( double t0, const Vec& x0, double h, bool abs ) const
    {
        auto A = [&]( long double v ) { return abs ? std::fabs( v ) : v; };
        std::vector<LP> s( n() ); std::vector<unsigned> ord( n() ); for( unsigned i = 0; i < n(); ++i ) ord[i] = i;
        std::sort( ord.begin(), ord.end(), [&]( unsigned a, unsigned b ) { return w[a] < w[b]; } );
        LP t{ A( t0 ), 1 };
        for( unsigned i : ord ) {
            LP d{ 0 };
            if( i < nd ) d = s[nd+i];
            else for( auto& m : p[i] ) { LP v{ A( m.a ) }; for( int q = 0; q < m.k; ++q ) v = mul( v, t ); for( unsigned j : m.js ) v = mul( v, s[j] ); if( d.size() < v.size() ) d.resize( v.size(), 0 ); for( size_t q = 0; q < v.size(); ++q ) d[q] += v[q]; }
            s[i].assign( d.size() + 1, 0 ); s[i][0] = A( x0[i] ); for( size_t q = 0; q < d.size(); ++q ) s[i][q+1] = d[q]/( q+1 );
        }
        Vec r( n() ); for( unsigned i = 0; i < n(); ++i ) { long double v = 0, H = A( h ); for( size_t q = s[i].size(); q-- > 0; ) v = v*H + s[i][q]; r[i] = v; }
        return r;
    }
    std::string str() const
    {
        std::ostringstream o; o.precision( 17 ); o << "nd=" << nd << " n1=" << n1; for( unsigned i = nd; i < n(); ++i ) { o << " x" << i << "'="; for( auto& m : p[i] ) { o << std::showpos << m.a << std::noshowpos; if( m.k ) o << "*t^" << m.k; for( unsigned j : m.js ) o << "*x" << j; } if( p[i].empty() ) o << "0"; }
        return o.str();
    }
};
inline Nil genNil( pbt::Ctx& c, int W, unsigned nmax = 5, bool secondOrder = true )
{
    Nil s; if( c.chance( 1, 80 ) ) nmax = c.range( 6, 24 ); s.nd = secondOrder && W >= 2 && c.flip() ? c.range( 1, std::max<int>( 2, nmax/3 ) ) : 0; s.n1 = c.range( s.nd ? 0 : 1, std::max<int>( 1, nmax - 2*s.nd ) ); unsigned n = s.n(); s.w.resize( n ); s.p.resize( n );
    for( unsigned i = 0; i < s.nd; ++i ) { s.w[s.nd+i] = W - 1 - c.range( 0, W-2 ); s.w[i] = s.w[s.nd+i] + 1; }
    for( unsigned i = 2*s.nd; i < n; ++i ) s.w[i] = W - c.range( 0, W-1 );
    for( unsigned i = s.nd; i < n; ++i ) {
        int k = c.range( 0, 3 );
        for( int q = 0; q < k; ++q ) {
            Nil::Mono m; m.a = c.nz( 2 ); m.k = 0; int left = s.w[i] - 1;
            while( left > 0 && !c.chance( 1, 5 ) ) {
                std::vector<unsigned> js; for( unsigned j = 0; j < n; ++j ) if( s.w[j] <= left ) js.push_back( j );
                unsigned e = c.range( 0, js.size() ); if( e == js.size() ) { ++m.k; --left; } else { m.js.push_back( js[e] ); left -= s.w[js[e]]; }
            }
            s.p[i].push_back( m );
        }
    }
    return s;
}
inline std::shared_ptr<TestRhs> makeRhs( const Nil& s ) { return makeRhs( s.nd, s.n1, [s]( double t, const Vec& x ) { return s.f( t, x ); }, s.str() ); }

// x_i' = sum_j a_ij x_j + w_i g(x_p(i)) + u_i cos(om_i t) + k_i: smooth, Lipschitz
struct Smooth
{
    unsigned nd = 0, n1 = 0; std::vector<Vec> A; Vec w, u, om, k; std::vector<unsigned> p; std::vector<int> g;
    unsigned n() const { return 2*nd + n1; }
    Vec f( double t, const Vec& x ) const
    {
        Vec r( n() ); for( unsigned i = 0; i < nd; ++i ) r[i] = x[nd+i];
        for( unsigned i = nd; i < n(); ++i ) { double s = k[i] + u[i]*std::cos( om[i]*t ); for( unsigned j = 0; j < n(); ++j ) if( A[i][j] != 0 ) s += A[i][j]*x[j]; if( w[i] != 0 ) s += w[i]*( g[i] == 0 ? std::sin( x[p[i]] ) : g[i] == 1 ? std::atan( x[p[i]] ) : x[p[i]]/( 1 + x[p[i]]*x[p[i]] ) ); r[i] = s; }
        return r;
    }
    std::vector<Vec> jac( const Vec& x ) const
    {
        std::vector<Vec> J( n(), Vec( n(), 0. ) ); for( unsigned i = 0; i < nd; ++i ) J[i][nd+i] = 1;
        for( unsigned i = nd; i < n(); ++i ) { J[i] = A[i]; double y = x[p[i]], q = 1 + y*y; J[i][p[i]] += w[i]*( g[i] == 0 ? std::cos( y ) : g[i] == 1 ? 1/q : ( 1 - y*y )/( q*q ) ); }
        return J;
    }
    bool linear() const { for( double v : w ) if( v != 0 ) return false; return true; }
    std::string str() const
    {
        std::ostringstream o; o.precision( 17 ); o << "nd=" << nd << " n1=" << n1; for( unsigned i = nd; i < n(); ++i ) { o << " x" << i << "'=" << k[i] << std::showpos; for( unsigned j = 0; j < n(); ++j ) if( A[i][j] != 0 ) o << A[i][j] << "*x" << j; if( u[i] != 0 ) o << u[i] << "*cos(" << om[i] << "t)"; if( w[i] != 0 ) o << w[i] << "*g" << g[i] << "(x" << p[i] << ")"; o << std::noshowpos; }
        return o.str();
    }
};
inline Smooth genSmooth( pbt::Ctx& c, unsigned nmax = 4, double lip = 2, bool linear = false, bool autonomous = false )
{
    Smooth s; bool big = c.chance( 1, 80 ); if( big ) nmax = c.range( 6, 24 ); s.nd = c.flip() ? c.range( 1, std::max<int>( 2, nmax/3 ) ) : 0; s.n1 = c.range( s.nd ? 0 : 1, std::max<int>( 1, nmax - 2*s.nd ) ); unsigned n = s.n(); s.A.assign( n, Vec( n, 0. ) ); s.w = s.u = s.om = s.k = Vec( n, 0. ); s.p.assign( n, 0 ); s.g.assign( n, 0 );
    for( unsigned i = s.nd; i < n; ++i ) {
        for( unsigned j = 0; j < n; ++j ) if( big ? c.chance( 2, n ) : c.chance( 1, 2 ) ) s.A[i][j] = c.nz( lip );
        if( !linear && c.chance( 1, 2 ) ) { s.w[i] = c.nz( lip ); s.p[i] = c.range( 0, n-1 ); s.g[i] = c.range( 0, 2 ); }
        if( !autonomous && c.chance( 1, 3 ) ) { s.u[i] = c.nz( 2 ); s.om[i] = c.real( .5, 3 ); }
        if( c.chance( 1, 3 ) ) s.k[i] = c.nz( 2 );
    }
    return s;
}
inline std::shared_ptr<TestRhs> makeRhs( const Smooth& s ) { return makeRhs( s.nd, s.n1, [s]( double t, const Vec& x ) { return s.f( t, x ); }, s.str() ); }
inline Vec add( Vec a, const Vec& b, double q = 1 ) { for( size_t i = 0; i < a.size(); ++i ) a[i] += q*b[i]; return a; }
// classical RK4 with many substeps
inline Vec refSolve( const Fn& f, double t, Vec x, double h, int sub )
{
    double d = h/sub; for( int i = 0; i < sub; ++i ) { double s = t + i*d; Vec a = f( s, x ), b = f( s + d/2, add( x, a, d/2 ) ), e = f( s + d/2, add( x, b, d/2 ) ), g = f( s + d, add( x, e, d ) ); for( size_t j = 0; j < x.size(); ++j ) x[j] += d/6*( a[j] + 2*b[j] + 2*e[j] + g[j] ); }
    return x;
}
inline double dist( const Vec& a, const Vec& b ) { if( a.size() != b.size() ) return INFINITY; return norm( add( a, b, -1 ) ); }
inline bool sameV( const Vec& a, const Vec& b ) { if( a.size() != b.size() ) return false; for( size_t i = 0; i < a.size(); ++i ) if( !( a[i] == b[i] || ( std::isnan( a[i] ) && std::isnan( b[i] ) ) ) ) return false; return true; }
// Step size controller as documented by its parameters
struct Ctl
{
    double tol = 1e-6, ins = .8, incMin = 1.3, incMax = 2, decMax = .1, maxThr = 0;
    Params params() const { Params p; p["tolerance"] = tol; p["insurance"] = ins; p["inc_min_factor"] = incMin; p["inc_max_factor"] = incMax; p["dec_max_factor"] = decMax; p["max_threshold"] = maxThr; return p; }
    Params solverParams( Params q = Params() ) const { q["stepsizectl"] = OptionalParameters::Value( "simple", params() ); return q; }
    struct R { bool accept, change; double h; };
    // every outcome that rounding of the error and of the power function may lead to
    std::vector<R> predict( double h, double err, double order ) const
    {
        if( err == 0 ) return { { true, false, h } };
        double p0 = std::isnan( err ) ? 0 : std::pow( tol/err, 1/( order+1 ) ); std::vector<R> r;
        for( double e : { -1e-12, 0., 1e-12 } ) {
            double p = p0*( 1 + e );
            if( p >= 1 ) {
                double q = p*ins; bool hit = maxThr > 0 && q*h > maxThr;     // parameters pass through text of 16 digits
                if( hit ) { q = maxThr/h; if( q < 1 + 1e-12 ) r.push_back( { true, false, h } ); if( q < 1 - 1e-12 ) continue; }
                if( incMin > 0 && q < incMin*( 1 + 1e-12 ) ) { r.push_back( { true, false, h } ); if( q < incMin*( 1 - 1e-12 ) ) continue; }
                if( incMax > 0 && q > incMax ) q = incMax;
                r.push_back( { true, true, h*q } );
            }
            if( p > 1 - 2e-5 && p < 1 ) r.push_back( { true, false, h } );
            if( p < 1 - .5e-5 ) { double q = p*ins; if( decMax > 0 && q < decMax ) q = decMax; r.push_back( { false, true, h*q } ); }
        }
        return r;
    }
    bool allows( double h, double err, double order, bool accept, bool change, double hnew ) const
    { for( auto& r : predict( h, err, order ) ) if( r.accept == accept && r.change == change && close( r.h, hnew, std::fabs( r.h ), 1e-11 ) ) return true; return false; }
    std::string str() const { std::ostringstream o; o.precision( 17 ); o << "ctl(tol " << tol << " ins " << ins << " inc " << incMin << ".." << incMax << " dec " << decMax << " max " << maxThr << ")"; return o.str(); }
};
inline Ctl genCtl( pbt::Ctx& c )
{
    Ctl k; k.tol = c.logreal( 1e-10, 1e-2 ); if( c.flip() ) return k;
    k.ins = c.real( .5, .95 ); k.incMin = c.chance( 1, 6 ) ? 0 : c.real( 1, 1.6 ); k.incMax = c.chance( 1, 6 ) ? 0 : c.real( 1.6, 5 ); k.decMax = c.chance( 1, 6 ) ? 0 : c.real( .05, .5 ); k.maxThr = c.flip() ? 0 : c.logreal( .01, 1 );
    return k;
}
// one affine zero function of random direction; its event multiplies a variable by a factor
inline void installEvent( pbt::Ctx& c, TestRhs& r, unsigned n )
{
    Vec g = c.nums( n, 2 ); double g0 = c.real( -1, 1 ), gt = c.num( 2 ), fac = c.pick( std::vector<double>{ 1, -1, .5, 2 } ); unsigned j = c.range( 0, n-1 ); r.flags = { (unsigned)c.range( 1, 3 ) | ( fac == 1 && c.flip() ? 0u : 4u ) };
    r.zf = [=]( double t, const Vec& x ) { double z = g0 + gt*t; for( size_t i = 0; i < g.size() && i < x.size(); ++i ) z += g[i]*x[i]; return Vec{ z }; }; r.sw = [=]( const int*, double, Vec& x ) { x[j] *= fac; };
    r.trunc = nullptr; if( c.chance( 1, 5 ) ) { auto z = r.zf; r.trunc = [=]( double& t, Vec& x ) { if( z( t, x )[0] > 0 ) return false; x[j] *= fac; return true; }; r.flags.clear(); }     // the system ends the step itself, where it is
}
