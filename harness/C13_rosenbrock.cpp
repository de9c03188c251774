// C13 - Rosenbrock W-methods: the step equations with the Jacobian of the last hard initialization, order, error control, restarts
#include "ode_common.h"
typedef std::vector<Vec> Mat;

static bool solveDense( Mat A, Vec b, Vec& x )      // with row exchanges
{
    unsigned n = b.size();
    for( unsigned k = 0; k < n; ++k ) {
        unsigned p = k; for( unsigned i = k+1; i < n; ++i ) if( std::fabs( A[i][k] ) > std::fabs( A[p][k] ) ) p = i;
        if( A[p][k] == 0 ) return false; std::swap( A[p], A[k] ); std::swap( b[p], b[k] );
        for( unsigned i = k+1; i < n; ++i ) { double m = A[i][k]/A[k][k]; if( m != 0 ) { for( unsigned j = k; j < n; ++j ) A[i][j] -= m*A[k][j]; b[i] -= m*b[k]; } }
    }
    x.assign( n, 0 ); for( unsigned i = n; i-- > 0; ) { double s = b[i]; for( unsigned j = i+1; j < n; ++j ) s -= A[i][j]*x[j]; x[i] = s/A[i][i]; }
    return true;
}
static Vec mul( const Mat& A, const Vec& x ) { Vec r( x.size(), 0. ); for( unsigned i = 0; i < x.size(); ++i ) for( unsigned j = 0; j < x.size(); ++j ) r[i] += A[i][j]*x[j]; return r; }
static double rowNorm( const Mat& A ) { double m = 0; for( auto& r : A ) { double s = 0; for( double a : r ) s += std::fabs( a ); m = std::max( m, s ); } return m; }

// The methods as published, with a given Jacobian. scale: magnitude for comparison, including the effect of the error of a numerical Jacobian
struct Ref { Vec x1; double err, tol; bool ok; };
static Ref reference( const std::string& id, const Fn& f, const Mat& J, double eJ, double t, const Vec& x, double h, double d, bool wantErr )
{
    unsigned n = x.size(); Mat W( n, Vec( n ) ); for( unsigned i = 0; i < n; ++i ) for( unsigned j = 0; j < n; ++j ) W[i][j] = ( i == j ) - h*d*J[i][j];
    double winv = 0; Mat I( n ); for( unsigned j = 0; j < n; ++j ) { Vec e( n, 0. ), c; e[j] = 1; if( !solveDense( W, e, c ) ) return { x, 0, 0, false }; I[j] = c; }
    for( unsigned i = 0; i < n; ++i ) { double s = 0; for( unsigned j = 0; j < n; ++j ) s += std::fabs( I[j][i] ); winv = std::max( winv, s ); }
    auto S = [&]( const Vec& b ) { Vec r( n, 0. ); for( unsigned j = 0; j < n; ++j ) for( unsigned i = 0; i < n; ++i ) r[i] += I[j][i]*b[j]; return r; };
    Vec f0 = f( t, x ), k1 = S( f0 ); double km = norm( k1 ), ah = std::fabs( h ), L = 1 + ah*rowNorm( J ), ed = winv*ah*std::fabs( d )*eJ;      // relative error of W^-1 due to J
    double base = 1e-12*( 1 + norm( x ) ), q = winv*winv*L*L*L;
    if( id == "rosenbrock_w1" ) { Vec x1 = add( x, k1, h ); return { x1, 0, base + ah*km*( ed + 1e-12*q ), ed < .1 && winv < 100 }; }
    Vec b2 = add( f( t + h*2/3, add( x, k1, h*2/3 ) ), mul( J, k1 ), -4./3*h*d ), k2 = S( b2 ), x1 = add( add( x, k1, h/4 ), k2, .75*h ); km = std::max( km, norm( k2 ) ); double e = 0;
    if( wantErr ) {
        Vec k3 = S( f( t + h, x1 ) ), k4 = S( add( f( t + 5./3*h, add( x1, k3, h*2/3 ) ), mul( J, add( add( Vec( n, 0. ), k1, 2./3 ), k2, 6 ) ), h*d ) ); km = std::max( { km, norm( k3 ), norm( k4 ) } );
        Vec v = add( add( add( k1, k3, 5 ), k2, -5 ), k4, -1 ); for( auto& y : v ) y *= .125*h; e = norm( v );
    }
    return { x1, e, base + 40*ah*km*( ed*( 1 + ah*rowNorm( J ) ) + 1e-12*q )*( 1 + winv )*( 1 + ah*rowNorm( J ) ), ed < .01 && winv < 30 };
}
// bound of the error of a forward difference with step 1e-6 (or any better approximation)
static double jacErr( const Smooth& s, const Vec& f0 ) { double w = 0; for( double v : s.w ) w = std::max( w, std::fabs( v ) ); return 2e-6*w + 4e-9*( 1 + norm( f0 ) )*s.n(); }
static double lipschitz( const Smooth& s ) { double L = 0; for( unsigned i = 0; i < s.n(); ++i ) { double q = i < s.nd ? 1 : std::fabs( s.w[i] ); for( double a : s.A[i] ) q += std::fabs( a ); L = std::max( L, q ); } return L; }

static void history( pbt::Ctx& c, const std::string& id, Smooth s, bool stiff )
{
    bool w1 = id == "rosenbrock_w1"; Ctl ctl = genCtl( c ); ctl.tol = c.logreal( 1e-7, 1e-1 ); bool noCheck = w1 || c.chance( 1, 4 ); double d = c.flip() ? 1 : c.real( .4, 1.5 ), L = lipschitz( s );
    double h0 = stiff ? c.logreal( .01, 10 ) : c.logreal( .003, .4 )/( L*d + 1e-3 ), hmin = c.chance( 1, 4 ) ? c.logreal( 1e-5, 1e-2 ) : 1e-16; if( !noCheck && !stiff && ctl.maxThr == 0 ) ctl.maxThr = .4/( L*d + 1e-3 ); bool dflt = c.chance( 1, 6 ); if( dflt ) h0 = .01; if( noCheck && !stiff && !dflt && c.chance( 1, 5 ) ) h0 = -h0;
    Params p; if( !w1 ) p = ctl.solverParams(); p["d"] = d; if( !w1 ) p["disable_error_check"] = noCheck; p["h_min"] = hmin; bool byParam = c.flip(); if( byParam && !dflt ) p["h_init"] = h0; auto sol = makeSolver( id, p ); if( !byParam && !dflt ) sol->setInitialStepSize( h0 );
    c.log << id << ( noCheck ? " nocheck" : "" ) << " d " << d << " h0 " << h0 << ( dflt ? " (default)" : "" ) << " hmin " << hmin << " " << ctl.str() << "\n";
    bool ev = c.chance( 1, 3 ), trunc = false; std::vector<double> pre; std::vector<PostArg> post; double t = 0; Vec x; int refreshes = 0;
    auto o1 = cxx::makeScopedIdentifiedElement( sol->odeSolverPreObservers, [&]( double h, const Solver* ) { pre.push_back( h ); if( pre.size() > 300 ) throw std::logic_error( "endless" ); } );
    auto o2 = cxx::makeScopedIdentifiedElement( sol->odeSolverPostObservers, [&]( const PostArg& a ) { post.push_back( a );
        if( a.stepAccepted() && a.stepTruncated() ) trunc = true; else if( a.stepAccepted() ) EXPECT( sol->initialTime() == t + a.stepSize(), "time", "after an accepted step time is " << sol->initialTime() << ", expected " << t + a.stepSize() ); else EXPECT( sol->initialTime() == t && same( sol->initialState(), x ), "rejected", "a rejected step has changed time or state" ); } );
    auto o3 = cxx::makeScopedIdentifiedElement( sol->jacobianRefreshObservers, [&]( bool start ) { refreshes += start; } );
    Mat J; double eJ = 0, h = h0; bool haveJ = false; int rejected = 0, steps = c.range( 1, 8 ), compared = 0; bool soft = false, hardAgain = false; Fn f;
    for( int k = 0; k < steps; ++k ) {
        int what = k == 0 ? 0 : c.pickw( { 1, 1, 2, 6 } );     // hard initialization, soft one, new step size, go on
        if( what == 0 ) {
            if( k ) { hardAgain = true; if( c.flip() ) { Smooth n = genSmooth( c, 4, 2 ); if( !stiff && lipschitz( n )*d*std::fabs( h0 ) < .5 ) s = n; } }
            t = c.real( -1, 1 ); x.resize( s.n() ); for( auto& v : x ) v = c.real( -2, 2 ); f = [s]( double t, const Vec& x ) { return s.f( t, x ); };
            if( k == 0 || c.flip() || sol->odeRhs()->varCount() != s.n() ) { sol->setOdeRhs( makeRhs( s ) ); } else std::static_pointer_cast<TestRhs>( sol->odeRhs() )->f = f, std::static_pointer_cast<TestRhs>( sol->odeRhs() )->nd = s.nd, std::static_pointer_cast<TestRhs>( sol->odeRhs() )->n1 = s.n1;
            auto& tr = static_cast<TestRhs&>( *sol->odeRhs() ); tr.flags.clear(); tr.trunc = nullptr; if( ev ) installEvent( c, tr, s.n() );
            sol->setInitialState( t, toV( x ) ); haveJ = false; h = h0; c.log << "start: " << s.str() << " t=" << t << " " << str( x ) << "\n";
        }
        else if( what == 1 ) { t = c.real( -1, 1 ); for( auto& v : x ) v += c.real( -1, 1 ); sol->setInitialState( t, toV( x ), true ); soft = true; c.log << "soft start: t=" << t << " " << str( x ) << "\n"; }
        else if( what == 2 ) { h0 = h = h*c.real( .3, 1.1 ); sol->setInitialStepSize( h ); c.log << "step size " << h << "\n"; }
        trunc = false; pre.clear(); post.clear(); refreshes = 0; std::string err; try { sol->doStep(); } catch( const pbt::Failure& ) { throw; } catch( const std::exception& e ) { err = e.what(); }
        EXPECT( pre.size() <= 300, "endless", "300 attempts to take one step" );
        if( !haveJ ) { J = s.jac( x ); eJ = jacErr( s, f( t, x ) ); haveJ = true; EXPECT( refreshes == 1, "jacobian", refreshes << " Jacobian evaluations after a hard initialization" ); } else EXPECT( refreshes == 0, "jacobian", "Jacobian evaluated again without need" );
        double hh = h; bool accepted = false; Ref r;
        for( size_t i = 0; i < pre.size(); ++i ) {
            EXPECT( close( pre[i], hh, hh, 1e-11 ), "step", "attempt " << i << " uses step size " << pre[i] << ", expected " << hh ); hh = pre[i]; EXPECT( !accepted, "extra", "another attempt after the step was accepted" );
            r = reference( id, f, J, eJ, t, x, hh, d, !noCheck ); if( !r.ok ) { c.label( "ill-conditioned" ); c.nontrivial( compared > 0 && ( rejected || soft || hardAgain ) ); return; }
            if( i < post.size() ) {
                auto& a = post[i]; EXPECT( a.stepSize() == hh, "step", "post-observer is told step size " << a.stepSize() << ", the step taken was " << hh );
                EXPECT( std::fabs( a.errorNorm() - r.err ) <= r.tol, "error", "error estimate " << a.errorNorm() << ", expected " << r.err << " (tolerance " << r.tol << ", attempt " << i << ")" ); double hn = i+1 < pre.size() ? pre[i+1] : NAN;
                if( noCheck ) { EXPECT( a.stepAccepted() && !a.stepSizeChanged(), "control", "step size control is off" ); h = hh; }
                else { bool ok = false; for( auto& q : ctl.predict( hh, a.errorNorm(), 2 ) ) if( q.accept == a.stepAccepted() && q.change == a.stepSizeChanged() && ( std::isnan( hn ) || close( hn, q.h, q.h, 1e-11 ) ) ) ok = true, h = q.h; EXPECT( ok, "control", "error " << a.errorNorm() << " with step " << hh << ": accepted " << a.stepAccepted() << ", changed " << a.stepSizeChanged() << " -> " << hn ); }
                accepted = a.stepAccepted(); rejected += !accepted; hh = std::isnan( hn ) ? h : hn;
            }
            else {
                bool ok = false; for( auto& q : ctl.predict( hh, r.err, 2 ) ) if( q.change && q.h <= hmin*( 1 + 1e-6 ) + 1e-6*r.tol ) ok = true; if( r.err > 0 && r.tol > 1e-3*r.err ) ok = true;
                EXPECT( ok && !err.empty() && !noCheck, "control", "attempt with step " << hh << " and error " << r.err << " ended by: " << err ); c.label( "minimum step" ); c.nontrivial(); return;
            }
        }
        EXPECT( err.empty(), "control", "exception: " << err ); EXPECT( accepted, "accept", "doStep() returned without an accepted step" ); Vec got = toVec( sol->initialState() ); double e = dist( got, r.x1 );
        if( trunc ) { EXPECT( ev, "truncated", "a step was truncated without an event" ); c.label( "truncated" ); } else EXPECT( e <= r.tol, "state", "step " << k << ", attempt " << pre.size() << " with h " << pre.back() << ": state " << str( got ) << ", expected " << str( r.x1 ) << ", tolerance " << r.tol ); ++compared;
        t = sol->initialTime(); x = got; h = hh; if( !( norm( x ) < 1e4 ) ) break;
    }
    c.nontrivial( compared > 1 && s.nd + s.n1 > 1 && ( w1 || noCheck || rejected || soft || hardAgain ) ); c.label( id ); c.label( "rejected", rejected > 0 ); c.label( "second order", s.nd > 0 ); c.label( "hard restart", hardAgain );
}
PBT( steps, 20000, 300000, "both methods on random smooth nonlinear systems, sequences of steps with rejected attempts, hard and soft restarts (other systems included) and changes of step size; oracle: the defining equations solved densely with the analytic Jacobian at the last hard initialization; every attempt checked: "
     "step size, error estimate, acceptance, state, time, observers; non-trivial: several variables and steps, and a rejected attempt, restart or step control off" )
{ Smooth s = genSmooth( c, 4, c.pick( std::vector<double>{ 1, 4 } ) ); history( c, c.chance( 1, 3 ) ? "rosenbrock_w1" : "rosenbrock_sw2_4", s, false ); }
PBT( stiff, 10000, 150000, "the same on dissipative systems with eigenvalues up to -1e4 and steps up to 10; non-trivial: as above" )
{
    Smooth s = genSmooth( c, 4, 1 );
    for( unsigned i = 0; i < s.nd; ++i ) { double k = c.logreal( 1, 1e4 ); for( unsigned j = 0; j < s.n(); ++j ) s.A[s.nd+i][j] = 0; s.A[s.nd+i][i] = -k; s.A[s.nd+i][s.nd+i] = -c.real( .5, 2 )*std::sqrt( k ); s.w[s.nd+i] = 0; }
    for( unsigned i = 2*s.nd; i < s.n(); ++i ) { s.A[i][i] = -c.logreal( 5, 1e4 ); }
    history( c, c.chance( 1, 3 ) ? "rosenbrock_w1" : "rosenbrock_sw2_4", s, true );
}
PBT( exact, 30000, 500000, "polynomial systems that a method of order 1 (w1) or 2 (sw2_4) reproduces exactly, whatever the Jacobian it uses (hard start at another state), step size and d; oracle: exact solution; non-trivial: sw2_4 with a component of weight 2" )
{
    bool w1 = c.chance( 1, 4 ); int W = w1 ? 1 : 2; Nil n = genNil( c, W ); double h = c.logreal( .01, 2 )*( c.chance( 1, 8 ) ? -1 : 1 ), t = c.real( -1, 1 ); Params p; p["d"] = c.real( .2, 2 ); if( !w1 ) p["disable_error_check"] = true;
    auto s = makeSolver( w1 ? "rosenbrock_w1" : "rosenbrock_sw2_4", p ); EXPECT( s->order() == W, "order", "order " << s->order() ); s->setOdeRhs( makeRhs( n ) ); s->setInitialStepSize( h ); Vec x( n.n() ); for( auto& v : x ) v = c.num( 2 );
    s->setInitialState( t, toV( x ) ); c.log << n.str() << " h " << h << " t " << t << " " << str( x ); int k = c.range( 1, 4 );
    for( int i = 0; i < k; ++i ) {
        if( i && c.chance( 1, 3 ) ) { t = c.real( -1, 1 ); for( auto& v : x ) v = c.num( 2 ); s->setInitialState( t, toV( x ), true ); c.log << " soft t " << t << " " << str( x ); }
        if( i && c.chance( 1, 3 ) ) { h = c.logreal( .01, 2 ); s->setInitialStepSize( h ); c.log << " h " << h; }
        s->doStep(); Vec mag, ex = n.exact( t, x, h, mag ), got = toVec( s->initialState() ); double sc = norm( mag ) + 1; EXPECT( dist( got, ex ) <= 1e-9*sc*( 1 + h*h ), "order", "state " << str( got ) << " after step " << i << ", expected " << str( ex ) ); EXPECT( s->initialTime() == t + h, "time", "time " << s->initialTime() );
        t = s->initialTime(); x = got;
    }
    c.nontrivial( !w1 && *std::max_element( n.w.begin(), n.w.end() ) == 2 ); c.label( "second order", n.nd > 0 );
}
