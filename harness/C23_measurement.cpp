// C23 - error measurement: Richardson estimates, error statistics, timing statistics; the small mathematical and formatting functions
#include "params.h"
#include "ode_num_int/RichardsonErrorCalculator.h"
#include "ode_num_int/ErrorStats.h"
#include "ode_num_int/TimingStats.h"
#include "ode_num_int/TimerCalibrator.h"
#include "ode_num_int/lu/LUFactorizerTimingStats.h"
#include "ode_num_int/infra/cxx_assert.h"
#include "ode_num_int/util/m_inline.h"
#include "ode_num_int/util/sys_time.h"
#include "ode_num_int/util/foreachindex.h"
#include <climits>

struct Stats { std::vector<Vec> s; };
static void checkStats( pbt::Ctx& c, const ErrorStats<V>& st, const std::vector<Vec>& s, unsigned n, double rel )
{
    EXPECT( st.sampleCount() == s.size(), "count", "sample count " << st.sampleCount() << ", expected " << s.size() ); Vec mx( n, 0. ), sum( n, 0. ), sq( n, 0. ); for( auto& e : s ) for( unsigned i = 0; i < n; ++i ) { double a = std::fabs( e[i] ); mx[i] = std::max( mx[i], a ); sum[i] += a; sq[i] += a*a; }
    V gm = st.errorMaxValue(), gs = st.errorSum(), gq = st.errorSquareSum(); EXPECT( gm.size() == n && gs.size() == n && gq.size() == n, "size", "size of the statistics" ); for( unsigned i = 0; i < n; ++i ) { EXPECT( close( gm[i], mx[i], mx[i], rel ), "max", "maximum " << gm[i] << ", expected " << mx[i] ); EXPECT( close( gs[i], sum[i], sum[i], rel ), "sum", "sum " << gs[i] << ", expected " << sum[i] ); EXPECT( close( gq[i], sq[i], sq[i], 2*rel ), "squares", "sum of squares " << gq[i] << ", expected " << sq[i] ); }
    if( !s.empty() ) { V m = st.errorMeanValue(), d = st.errorMeanSqareDev(); for( unsigned i = 0; i < n; ++i ) { double mean = sum[i]/s.size(), var = 0; for( auto& e : s ) var += ( std::fabs( e[i] ) - mean )*( std::fabs( e[i] ) - mean ); var /= s.size(); EXPECT( close( m[i], mean, mean, rel ), "mean", "mean " << m[i] << ", expected " << mean ); EXPECT( close( d[i]*d[i], var, mx[i]*mx[i], 1e-12 + 10*rel ), "deviation", "mean square deviation " << d[i] << " of " << s.size() << " samples, expected " << std::sqrt( var ) ); } }
}
PBT( statistics, 20000, 200000, "random samples of scalar and vector errors, added to one or several statistics that are then combined; oracle: maximum, sum, mean, sum of squares and mean square deviation computed from the list of the absolute values; non-trivial: two statistics and three samples" )
{
    unsigned n = c.range( 1, 4 ); int k = c.range( 1, 3 ); std::vector<Vec> all; std::unique_ptr<ErrorStats<V>> tot; int vals = 0; for( int q = 0; q < k; ++q ) { ErrorStats<V> e = ErrorStats<V>( V( n ) ); std::vector<Vec> own; int m = c.range( 0, 6 ); double base = c.num( 3 ); for( int i = 0; i < m; ++i ) { Vec v( n ); for( auto& x : v ) x = c.flip() ? base : c.num( 10 ); own.push_back( v ); all.push_back( v ); e.addSample( toV( v ) ); ++vals; } checkStats( c, e, own, n, 1e-13 ); if( !tot ) { tot.reset( new ErrorStats<V>( e ) ); if( c.chance( 1, 4 ) ) { *tot += *tot; auto o = all; for( auto& v : o ) all.push_back( v ); } } else if( c.flip() ) *tot += e; else *tot = *tot + e; c.log << m << " "; }
    checkStats( c, *tot, all, n, 1e-13 ); ErrorStats<V> copy( tot->errorMaxValue(), tot->errorSum(), tot->errorSquareSum(), tot->sampleCount() ); checkStats( c, copy, all, n, 1e-13 );
    ErrorStats<double> d; double mx = 0, sum = 0; for( auto& v : all ) { d.addSample( v[0] ); mx = std::max( mx, std::fabs( v[0] ) ); sum += std::fabs( v[0] ); } EXPECT( d.sampleCount() == all.size() && d.errorMaxValue() == mx && close( d.errorSum(), sum, sum, 1e-13 ), "scalar", "statistics of numbers: maximum " << d.errorMaxValue() << ", sum " << d.errorSum() << ", expected " << mx << ", " << sum ); c.nontrivial( k >= 2 && vals >= 3 );
}

PBT( richardson, 6000, 100000, "Richardson error calculation of every solver on random smooth systems and on pure quadrature, with random duration and step size; oracle: the same two half steps and one step made by another solver of the same kind, error by the formula of extrapolation for the order of the method; for quadrature of a power, the exact error of the single step; statistics over all samples; non-trivial: two samples and a nonzero error" )
{
    struct M { std::string id; int p; bool high; }; static const std::vector<M> ms{ { "euler", 1 }, { "rk4", 4 }, { "dopri_45", 4, false }, { "dopri_45", 5, true }, { "dopri_56", 5, false }, { "dopri_56", 6, true }, { "dopri_78", 7, false }, { "dopri_78", 8, true }, { "rosenbrock_w1", 1 }, { "rosenbrock_sw2_4", 2 }, { "i_euler", 1 } }; M m = c.pick( ms ); bool quad = c.chance( 1, 3 ) && m.id != "i_euler" && m.id.compare( 0, 4, "rose" ); Params p; if( m.high ) p["mode"] = "high"; if( m.id == "i_euler" ) { Params e; e["abs_tol"] = 1e-12; e["rel_tol"] = 1e-9; e["rel_max_threshold"] = 0.; Params n; n["err"] = PV( "simple", e ); p["algsolver"] = PV( "newton", n ); }
    auto s = genSmooth( c, 4, 2 ); double h = quad ? c.real( .1, .5 ) : c.logreal( .01, .3 ), t = c.chance( 1, 3 ) ? 0 : c.real( 0, 1 ), T = c.chance( 1, 5 ) ? h*c.range( 1, 5 ) : c.real( 0, 5*h ); Vec x; std::shared_ptr<TestRhs> r; Vec co; if( quad ) { unsigned n = c.range( 1, 3 ); co = c.nums( n, 3 ); r = makeRhs( 0, n, [co,m]( double t, const Vec& x ) { Vec d( x.size() ); for( size_t i = 0; i < d.size(); ++i ) d[i] = co[i]*( m.p + 1 )*std::pow( t, m.p ); return d; } ); x = c.nums( n, 1 ); } else { r = makeRhs( s ); x.resize( s.n() ); for( auto& v : x ) v = c.num( 2 ); }
    c.log << m.id << ( m.high ? " high" : "" ) << " h=" << h << " duration " << T << ( quad ? " quadrature of " + str( co ) : s.str() ) << " from t=" << t << " " << str( x ); auto sol = makeSolver( m.id, p ), twin = makeSolver( m.id, p ); if( c.flip() ) sol->setInitialStepSize( .77*h ); { Params q; q["disable_error_check"] = true; twin->setParameters( q ); } EXPECT( twin->order() == m.p, "order", "order " << twin->order() ); sol->setOdeRhs( r ); sol->setInitialState( t, toV( x ) ); twin->setOdeRhs( r ); twin->setInitialState( t, toV( x ) );
    struct Smp { double t, h; Vec e; }; std::vector<Smp> got; std::vector<Vec> errs; RichardsonErrorCalculator<VD> rc; rc.setOdeSolver( sol ); rc.stepObservers.add( [&]( double t, double h, const V& e ) { got.push_back( { t, h, toVec( e ) } ); } ); size_t before = 0; long posts = 0; sol->odeSolverPostObservers.add( [&]( const PostArg& ) { ++posts; } ); ErrorStats<V> st = rc.calculateError( T, h ); long want = posts; { sol->doStep(); EXPECT( posts == want + 1, "observers", "the observer of the solver is lost" ); }
    double f = std::pow( 2., m.p ); f /= f - 1; double tt = t; Vec y = x; size_t k = 0; bool big = false; do {
        twin->setInitialState( tt, toV( y ), true ); twin->setInitialStepSize( h/2 ); twin->doStep(); twin->doStep(); Vec a = toVec( twin->initialState() ); twin->setInitialState( tt, toV( y ), true ); twin->setInitialStepSize( h ); twin->doStep(); Vec b = toVec( twin->initialState() ), e = add( a, b, -1 ); for( auto& v : e ) v *= f; double sc = 1 + norm( a ) + norm( b );
        EXPECT( k < got.size(), "samples", "sample " << k << " at t=" << tt << " is missing; there are " << got.size() ); EXPECT( close( got[k].t, tt, 1, 1e-11 ) && got[k].h == h, "arguments", "sample " << k << " at " << got[k].t << " of step " << got[k].h << ", expected " << tt << ", " << h ); for( size_t i = 0; i < e.size(); ++i ) EXPECT( close( got[k].e[i], e[i], sc, 1e-10 ), "error", "error of sample " << k << " " << str( got[k].e ) << ", expected " << str( e ) );
        if( quad ) for( size_t i = 0; i < e.size(); ++i ) { double X = y[i] + co[i]*( std::pow( tt + h, m.p + 1 ) - std::pow( tt, m.p + 1 ) ), q = std::pow( std::fabs( tt ) + h, m.p + 1 )*10*std::fabs( co[i] ) + sc; EXPECT( close( got[k].e[i], X - b[i], q, 1e-11 ), "exact", "error of sample " << k << " " << got[k].e[i] << ", exact " << X - b[i] ); } big = big || norm( e ) > 1e-9; errs.push_back( e ); ++k; y = a; tt += h; if( std::fabs( tt - t - T ) < 1e-12 ) { if( k == got.size() ) break; if( k + 1 == got.size() && tt < t + T + 1e-12 ) { errs.push_back( got[k].e ); ++k; break; } }
    } while( tt < t + T ); EXPECT( k == got.size(), "samples", got.size() << " samples, expected " << k ); errs.clear(); for( auto& g : got ) errs.push_back( g.e ); checkStats( c, st, errs, x.size(), 1e-12 ); c.nontrivial( k >= 2 && big ); c.label( m.id ); c.label( "quadrature", quad );
}

PBT( lu_counts, 6000, 80000, "implicit Euler with every descent direction and Jacobian provider, and the Rosenbrock methods, on random smooth systems with and without events; sequences of steps with hard and soft restarts and changes of step size; oracle: the LU statistics of the solver grow by one solution per computed descent direction (per stage), by no more factorizations than solutions, matrices are set as often as the direction sets them, updates are those of the secant update only; non-trivial: three steps" )
{
    std::string id = c.pick( std::vector<std::string>{ "i_euler", "i_euler", "rosenbrock_w1", "rosenbrock_sw2_4" } ), dd = c.pick( std::vector<std::string>{ "simple", "broyden", "fake-broyden", "lazy-fake-broyden", "hart", "const" } ); bool ie = id == "i_euler", sw = id == "rosenbrock_sw2_4", ctl = sw && c.flip(); Params p; if( ie ) { Params e; e["rel_max_threshold"] = 0.; Params n; n["err"] = PV( "simple", e ); n["ddir"] = PV( dd, Params() ); p["algsolver"] = PV( "newton", n ); } if( sw ) { p["disable_error_check"] = !ctl; Params k; k["tolerance"] = c.logreal( 1e-6, 1e-2 ); k["max_threshold"] = .6; p["stepsizectl"] = PV( "simple", k ); }
    auto s = genSmooth( c, 4, 2 ); double h = c.logreal( .01, .1 ); p["h_init"] = h; auto r = makeRhs( s ); bool ev = c.chance( 1, 3 ); if( ev ) installEvent( c, *r, s.n() ); auto sol = makeSolver( id, p ); sol->setOdeRhs( r ); c.log << id << " " << ( ie ? dd : "" ) << ( ctl ? " controlled" : "" ) << ( ev ? " with events " : " " ) << s.str(); unsigned long want = 0, post = 0, attempts = 0; long refresh = 0;
    if( ie ) dynamic_cast<NewtonSolverHolder<VD>*>( sol.get() )->newtonSolver()->iterationPerformer()->newtonDescentDirection()->ddirPostObservers.add( [&]( const V& ) { ++post; } ); sol->odeSolverPostObservers.add( [&]( const PostArg& ) { ++attempts; } ); sol->jacobianRefreshObservers.add( [&]( bool start ) { refresh += start; } ); int steps = c.range( 1, 8 ), k = 0;
    for( ; k < steps; ++k ) {
        if( k == 0 || c.chance( 1, 5 ) ) { Vec x( s.n() ); for( auto& v : x ) v = c.num( 2 ); sol->setInitialState( c.real( -1, 1 ), toV( x ), k && c.flip() ); } if( c.chance( 1, 6 ) && !ctl ) sol->setInitialStepSize( c.logreal( .01, .1 ) ); auto before = sol->luTimingStats; post = attempts = 0; refresh = 0; try { sol->doStep(); } catch( const cxx::exception& ) { break; } auto l = sol->luTimingStats; want = ie ? post : attempts*( sw ? ctl ? 4 : 2 : 1 ); unsigned long n = l.solveTiming.count() - before.solveTiming.count();
        EXPECT( n == want, "solutions", "step " << k << ": " << n << " solutions counted, expected " << want ); EXPECT( l.factorizeTiming.count() - before.factorizeTiming.count() <= n, "factorizations", "step " << k << ": " << l.factorizeTiming.count() - before.factorizeTiming.count() << " factorizations, " << n << " solutions" ); unsigned long set = l.setMatrixTiming.count() + l.setMatrixFastTiming.count() - before.setMatrixTiming.count() - before.setMatrixFastTiming.count(), up = l.updateTiming.count() - before.updateTiming.count(); if( ie && ( dd == "simple" || dd == "broyden" || dd == "fake-broyden" ) ) EXPECT( set >= n, "matrices", "step " << k << ": " << set << " matrices set, " << n << " solutions" ); if( ie && dd == "hart" ) EXPECT( long( set ) >= refresh && up <= n, "matrices", "step " << k << ": " << set << " matrices set, " << up << " updates, " << refresh << " Jacobians, " << n << " solutions" ); if( dd != "hart" || !ie ) EXPECT( up == 0, "updates", "updates counted" ); if( ie && dd == "const" ) EXPECT( long( set ) >= refresh, "matrices", set << " matrices set, " << refresh << " Jacobians" );
    }
    c.nontrivial( k >= 3 ); c.label( ie ? dd : id ); c.label( "events", ev );
}

PBT( functions, 40000, 400000, "random arguments, extreme ones included; oracle: definitions (remainder, rounding, minimum, sign, cubic interpolation and its derivatives, duration as hours, minutes, seconds), sums of times and counts; non-trivial: always" )
{
    auto integer = [&]() { return c.chance( 1, 6 ) ? c.pick( std::vector<int>{ INT_MIN, INT_MIN + 1, -1, 0, 1, INT_MAX } ) : int( c.range( -1000000, 1000000 ) ); }; int x = integer(); unsigned m = c.flip() ? c.range( 1, 20 ) : c.chance( 1, 5 ) ? c.pick( std::vector<unsigned>{ 1u<<31, UINT_MAX, ( 1u<<31 ) + 1 } ) : c.range( 1, 1000000 ); long long w = ( ( long long )x )%( long long )m; if( w < 0 ) w += m; c.log << x << " mod " << m; EXPECT( modp( x, m ) == ( unsigned )w, "modp", x << " mod " << m << " is " << modp( x, m ) << ", expected " << w );
    double v = c.chance( 1, 4 ) ? c.range( -1000, 1000 )/2. : c.chance( 1, 6 ) ? std::nextafter( c.range( -20, 20 ) + .5, c.flip() ? 100 : -100 ) : c.num( 1e5 ); c.log << " " << v; EXPECT( roundi( v ) == std::lround( v ), "roundi", "nearest integer to " << v << " is " << roundi( v ) ); EXPECT( Sgn( v ) == ( v < 0 ? -1 : 1 ), "Sgn", "sign" ); double u = c.num( 10 ); EXPECT( Min( u, v ) == std::min( u, v ) && Max( u, v ) == std::max( u, v ) && math::sqr( u ) == u*u, "minmax", "Min, Max or sqr of " << u << ", " << v ); EXPECT( Min( x, int( m/2 ) ) == std::min( x, int( m/2 ) ), "minmax", "Min of integers" );
    { double per = c.pick( std::vector<double>{ 1, 2, .5, 3, 10, .25 } ), bias = c.range( -4, 4 )*.25, x = bias + c.range( -1, 4 )*per/4 + per*( c.flip() ? c.range( -20, 20 ) : c.range( -2000000, 2000000 )*2048. ), z = modd( x, per, bias ), w = x - bias; w -= std::floor( w/per )*per; EXPECT( z == w + bias && z >= bias && z < bias + per, "modd", "remainder of " << x << " by " << per << " from " << bias << " is " << z << ", expected " << w + bias ); }
    double per = c.logreal( .01, 100 ), bias = c.num( 50 ), z = modd( v, per, bias ), sc = std::fabs( v ) + std::fabs( bias ) + per, q = ( v - z )/per; EXPECT( z >= bias - 1e-13*sc && z <= bias + per + 1e-13*sc && close( q, std::round( q ), sc/per + 1, 1e-12 ), "modd", "remainder of " << v << " by " << per << " from " << bias << " is " << z );
    using namespace cubic; double f0 = c.num( 5 ), d0 = c.num( 5 ), f1 = c.num( 5 ), d1 = c.num( 5 ), L = c.logreal( .1, 10 ), t = c.flip() ? c.real( 0, 1 ) : c.real( -2, 3 ); typedef long double D; D a = f0, b = d0, e = 3*( D( f1 ) - f0 ) - 2*D( d0 ) - d1, g = D( d1 ) + d0 + 2*( D( f0 ) - f1 ), y = a + t*( b + t*( e + t*g ) ), y1 = b + t*( 2*e + t*3*g ), y2 = 2*e + 6*g*t, y3 = 6*g; double S = 1e3; 
    EXPECT( close( CalcCubicPolynom( f0, d0, f1, d1, t ), y, S, 1e-12 ) && close( CalcCubicPolynomD( f0, d0, f1, d1, t ), y1, S, 1e-12 ) && close( CalcCubicPolynomD2( f0, d0, f1, d1, t ), y2, S, 1e-12 ) && close( CalcCubicPolynomD3( f0, d0, f1, d1, t ), y3, S, 1e-12 ), "cubic", "cubic polynomial at " << t );
    EXPECT( close( f0*f00( t ) + f1*f01( t ) + d0*f10( t ) + d1*f11( t ), y, S, 1e-12 ) && close( f0*df00( t ) + f1*df01( t ) + d0*df10( t ) + d1*df11( t ), y1, S, 1e-12 ) && close( f0*d2f00( t ) + f1*d2f01( t ) + d0*d2f10( t ) + d1*d2f11( t ), y2, S, 1e-12 ), "shape", "shape functions at " << t );
    { double X = t*L; D y, y1, y2, A = f0, B = D( d0 )*L, F = f1, G = D( d1 )*L, E = 3*( F - A ) - 2*B - G, H = G + B + 2*( A - F ); y = A + t*( B + t*( E + t*H ) ); y1 = ( B + t*( 2*E + t*3*H ) )/L; y2 = ( 2*E + 6*H*t )/L/L; double S = 1e3*( L + 1/L )*( 1 + 1/L ); EXPECT( close( f0*f00( X, L ) + f1*f01( X, L ) + d0*f10( X, L ) + d1*f11( X, L ), y, S, 1e-12 ) && close( f0*df00( X, L ) + f1*df01( X, L ) + d0*df10( X, L ) + d1*df11( X, L ), y1, S, 1e-12 ) && close( f0*d2f00( X, L ) + f1*d2f01( X, L ) + d0*d2f10( X, L ) + d1*d2f11( X, L ), y2, S, 1e-12 ), "shape", "shape functions at " << X << " of the interval " << L ); }
    unsigned long ms = c.flip() ? c.range( 0, 10000000 ) : c.range( 0, 2000000000 ), sec = ms/1000; std::string txt = sys::FormatTimeSpanSec( sec ), txm = sys::FormatTimeSpanMsec( ms ); char buf[100]; sprintf( buf, "%lu:%02lu:%02lu", sec/3600, sec/60%60, sec%60 ); EXPECT( txt == buf, "span", sec << " seconds are " << txt ); sprintf( buf + strlen( buf ), ".%03lu", ms%1000 ); EXPECT( txm == buf, "span", ms << " milliseconds are " << txm );
    std::vector<int> idx; Vec vs = c.nums( c.range( 0, 5 ) ), seen; foreachIndex( vs, [&]( double q, unsigned i ) { idx.push_back( i ); seen.push_back( q ); } ); EXPECT( seen == vs, "foreach", "elements visited" ); for( size_t i = 0; i < idx.size(); ++i ) EXPECT( idx[i] == int( i ), "foreach", "indices visited" );
    sys::TimingStats A, B; unsigned long long ta = 0, tb = 0; int na = c.range( 0, 4 ), nb = c.range( 0, 4 ); for( int i = 0; i < na; ++i ) { unsigned long long d = c.range( 0, 1000000 )*5000ull; ta += d; A.add( d ); } for( int i = 0; i < nb; ++i ) { unsigned long long d = c.range( 0, 1000 ); tb += d; B.add( d ); } sys::TimingStats C = A + B; EXPECT( A.time() == ta && int( A.count() ) == na && A.averageTime() == ( na ? ta/na : 0 ), "timing", "time statistics" ); EXPECT( C.time() == ta + tb && int( C.count() ) == na + nb && C.averageTime() == ( na + nb ? ( ta + tb )/( na + nb ) : 0 ), "timing", "sum of time statistics" ); { sys::ScopedTimeMeasurer q( B ); } EXPECT( int( B.count() ) == nb + 1 && B.time() >= tb, "timing", "scoped measurement" );
    LUFactorizerTimingStats l; l.factorizeTiming = A; l.solveTiming = B; l.setMatrixTiming = C; l.setMatrixFastTiming = A; l.updateTiming = B; auto s = l + l; EXPECT( s.factorizeTiming.time() == 2*A.time() && s.solveTiming.time() == 2*B.time() && s.setMatrixTiming.time() == 2*C.time() && s.setMatrixFastTiming.count() == 2*A.count() && s.updateTiming.count() == 2*B.count(), "timing", "sum of LU statistics" ); c.nontrivial( true );
}

PBT_FIXED( calibrator, "a calibrator stopped at once gives ticks only and refuses milliseconds; one that ran long enough converts ticks proportionally" )
{
    { sys::TimerCalibrator t; EXPECT( !t.stopped() && !t.toMsecAvailable(), "running", "running calibrator" ); t.stop(); EXPECT( t.stopped(), "stopped", "stopped calibrator" ); if( !t.toMsecAvailable() ) { EXPECT_THROW( t.toMsec( 1 ), "short", "conversion after a short measurement" ); EXPECT( t.formatTimeInterval( 123 ) == "123 ticks" && t.formatTimeInterval( 123, false ) == "123 ticks", "short", t.formatTimeInterval( 123 ) ); } }
    sys::TimerCalibrator t; OpaqueTickCounter k( true ); usleep( 150000 ); t.stop(); OpaqueTickType d = k.Stop(); EXPECT( t.toMsecAvailable(), "long", "conversion after 150 ms" ); double m = t.toMsec( d ); EXPECT( m >= 100 && m < 1e5, "long", "150 ms are measured as " << m ); for( int i = 1; i < 20; ++i ) EXPECT( close( t.toMsec( d*i ), i*m, i*m, 1e-12 ), "linear", "conversion is not proportional" ); std::ostringstream a, b; a << t.toMsec( d ) << " msec"; b << d << " ticks = " << a.str(); EXPECT( t.formatTimeInterval( d ) == a.str() && t.formatTimeInterval( d, false ) == b.str(), "format", t.formatTimeInterval( d, false ) );
}
