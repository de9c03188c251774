// C11 - embedded Runge-Kutta methods: error estimate, acceptance, step control and accounting
#include "ode_common.h"

struct Meth { std::string id; int hi, lo; };
static const std::vector<Meth>& meths() { static std::vector<Meth> m{ { "dopri_45", 5, 4 }, { "dopri_56", 6, 5 }, { "dopri_78", 8, 7 } }; return m; }
static std::shared_ptr<Solver> twin( const std::string& id, const char *mode, double h, std::shared_ptr<Rhs> r, double t, const Vec& x )
{ Params p; p["disable_error_check"] = true; p["mode"] = mode; auto s = makeSolver( id, p ); s->setOdeRhs( r ); s->setInitialStepSize( h ); s->setInitialState( t, toV( x ) ); return s; }

// Runs an adaptive solver and predicts each attempt from fixed-step solvers of the same method started at the same point
static void history( pbt::Ctx& c, const Meth& m, std::shared_ptr<TestRhs> r, std::shared_ptr<TestRhs> r2, double t, Vec x, int maxSteps )
{
    Ctl ctl = genCtl( c ); bool high = c.flip(), force = c.chance( 1, 8 ), noCheck = c.chance( 1, 8 ); double h0 = c.flip() ? c.logreal( 1e-3, 1 ) : c.logreal( .2, 3 ), hmin = c.chance( 1, 3 ) ? c.logreal( 1e-6, 1e-2 ) : 1e-16;
    Params p = ctl.solverParams(); p["mode"] = high ? "high" : "low"; p["force_error_calc"] = force; p["disable_error_check"] = noCheck; p["h_init"] = h0; p["h_min"] = hmin;
    double hAfter = 0; bool ev = c.chance( 1, 3 ), trunc = false; if( ev && c.flip() ) p["h_after_switch"] = hAfter = c.logreal( 1e-3, 1 );
    if( ev ) installEvent( c, *r, x.size() );
    auto s = makeSolver( m.id, p );
    c.log << m.id << ( high ? " high" : " low" ) << ( force ? " force" : "" ) << ( noCheck ? " nocheck" : "" ) << " h0 " << h0 << " hmin " << hmin << " " << ctl.str() << " " << r->text << " from t=" << t << " " << str( x );
    EXPECT( s->order() == ( high ? m.hi : m.lo ), "order", "order is " << s->order() );
    std::vector<double> pre; std::vector<PostArg> post; int rejected = 0, changed = 0;
    auto o1 = cxx::makeScopedIdentifiedElement( s->odeSolverPreObservers, [&]( double h, const Solver* ) { pre.push_back( h ); if( pre.size() > 400 ) throw std::logic_error( "endless" ); } );
    auto o2 = cxx::makeScopedIdentifiedElement( s->odeSolverPostObservers, [&]( const PostArg& a ) { post.push_back( a );
        if( a.stepAccepted() && a.stepTruncated() ) trunc = true; else if( a.stepAccepted() ) EXPECT( s->initialTime() == t + a.stepSize(), "time", "after an accepted step time is " << s->initialTime() << ", expected " << t + a.stepSize() ); else EXPECT( s->initialTime() == t && same( s->initialState(), x ), "rejected", "a rejected step has changed time or state" ); } );
    s->setOdeRhs( r ); s->setInitialState( t, toV( x ) ); double h = h0; int steps = c.range( 1, maxSteps );
    for( int k = 0; k < steps; ++k ) {
        pre.clear(); post.clear(); trunc = false; std::string err; try { s->doStep(); } catch( const pbt::Failure& ) { throw; } catch( const std::exception& e ) { err = e.what(); }
        EXPECT( pre.size() <= 400, "endless", "400 attempts to take one step, step size " << pre.back() );
        double hh = h; bool accepted = false; Vec next;
        for( size_t i = 0; i < pre.size(); ++i ) {
            EXPECT( close( pre[i], hh, hh, 1e-11 ), "step", "attempt " << i << " uses step size " << pre[i] << ", expected " << hh ); hh = pre[i];
            EXPECT( !accepted, "extra", "another attempt after the step was accepted" );
            auto th = twin( m.id, "high", hh, r2, t, x ), tl = twin( m.id, "low", hh, r2, t, x ); th->doStep(); tl->doStep(); Vec xh = toVec( th->initialState() ), xl = toVec( tl->initialState() );
            double e = noCheck && !force ? 0 : norm( add( xh, xl, -1 ) ), tolr = 1e-12*( norm( xh ) + norm( x ) ); next = high ? xh : xl;
            if( i < post.size() ) {
                auto& a = post[i]; EXPECT( a.stepSize() == hh, "step", "post-observer is told step size " << a.stepSize() << ", the step taken was " << hh );
                EXPECT( ( std::isnan( e ) && std::isnan( a.errorNorm() ) ) || std::fabs( a.errorNorm() - e ) <= tolr || a.errorNorm() == e, "error", "error estimate " << a.errorNorm() << ", difference of the two solutions " << e );
                double hn = i+1 < pre.size() ? pre[i+1] : NAN;
                if( noCheck ) EXPECT( a.stepAccepted() && !a.stepSizeChanged(), "control", "step size control is off" );
                else {
                    // the size of the next step is seen when it is taken
                    bool ok = false; for( auto& q : ctl.predict( hh, a.errorNorm(), m.lo ) ) if( q.accept == a.stepAccepted() && q.change == a.stepSizeChanged() && ( std::isnan( hn ) || close( hn, q.h, q.h, 1e-11 ) ) ) ok = true, h = q.h;
                    EXPECT( ok, "control", "error " << a.errorNorm() << " with step " << hh << ": accepted " << a.stepAccepted() << ", changed " << a.stepSizeChanged() << " -> " << hn );
                }
                accepted = a.stepAccepted(); rejected += !accepted; changed += a.stepSizeChanged(); if( !std::isnan( hn ) ) hh = hn; else hh = h;
            }
            else {   // ended by an exception: the step size is too small, and the step was not accepted, or is smaller than the previous one
                bool ok = false; for( auto& q : ctl.predict( hh, e, m.lo ) ) if( q.change && q.h <= hmin*( 1 + 1e-9 ) ) ok = true;
                EXPECT( ok && !err.empty(), "control", "attempt with step " << hh << " and error " << e << " ended by: " << err );
                c.label( "minimum step" ); c.nontrivial(); return;
            }
        }
        EXPECT( err.empty(), "control", "exception: " << err ); EXPECT( accepted, "accept", "doStep() returned without an accepted step" );
        if( trunc ) { EXPECT( ev, "truncated", "a step was truncated without an event" ); c.label( "truncated" ); if( post.back().stepSizeChanged() ) c.label( "truncated, step size changed" ); next = toVec( s->initialState() ); if( hAfter > 0 && h > hAfter ) h = hAfter; }
        EXPECT( sameV( toVec( s->initialState() ), next ), "state", "state " << str( toVec( s->initialState() ) ) << " is not that of the accepted step, " << str( next ) );
        bool chg = false; for( auto& a : post ) chg |= a.stepSizeChanged();
        t = s->initialTime(); x = next; if( !trunc ) h = hh; EXPECT( h > hmin*( 1 - 1e-9 ) || noCheck || !chg || trunc, "control", "step size " << h << " below the minimum" );
        if( !( norm( x ) < 1e6 ) ) break;
    }
    c.nontrivial( rejected > 0 && changed > rejected ); c.label( "rejected", rejected > 0 ); c.label( m.id ); c.label( "no check", noCheck );
}

PBT( attempts, 15000, 200000, "embedded methods with random controller parameters, modes, initial and minimal step sizes on random smooth nonlinear systems; every attempt is predicted: step size, error estimate (difference of the two solutions of the method at that point), acceptance, state, time, next step size, what observers are told, "
     "end by exception at the minimal step size; non-trivial: a rejected attempt and a later change of step size, or end at the minimum" )
{
    Smooth s = genSmooth( c, 4, c.pick( std::vector<double>{ 2, 8 } ) ); Vec x( s.n() ); for( auto& v : x ) v = c.real( -2, 2 ); history( c, c.pick( meths() ), makeRhs( s ), makeRhs( s ), c.real( -1, 1 ), x, 6 );
}
PBT( hostile, 6000, 100000, "the same on systems whose right hand side is not a number, infinite or discontinuous beyond some state or time: the step is rejected and reduced until it succeeds or the minimal step size is reached, never endlessly; non-trivial: rejected attempts, or end at the minimum" )
{
    Smooth s = genSmooth( c, 3, 4 ); unsigned i = c.range( 0, s.n()-1 ); double lim = c.real( -1, 2 ); int kind = c.range( 0, 3 ); bool byTime = c.flip();
    Fn f = [=]( double t, const Vec& x ) { Vec r = s.f( t, x ); if( ( byTime ? t : x[i] ) > lim ) r[i] = kind == 0 ? NAN : kind == 1 ? INFINITY : kind == 2 ? r[i] + 50 : std::sqrt( -1 + 0*x[i] ); return r; };
    std::string txt = s.str() + " and beyond " + std::to_string( lim ) + ( byTime ? " in t" : " in x" + std::to_string( i ) ) + " kind " + std::to_string( kind ); Vec x( s.n() ); for( auto& v : x ) v = c.real( -2, 1 );
    history( c, c.pick( meths() ), makeRhs( s.nd, s.n1, f, txt ), makeRhs( s.nd, s.n1, f, txt ), c.real( -1, 0 ), x, 4 );
}
PBT( estimate, 20000, 300000, "the error estimate on polynomial systems whose solution has degree at most the higher order: it equals the exact error of the lower order solution, and vanishes if the lower order suffices; non-trivial: the error is above rounding" )
{
    Meth m = c.pick( meths() ); bool high = c.flip(); Nil sys = genNil( c, c.flip() ? m.hi : m.lo ); double h = c.logreal( .1, 2 ), t = c.real( -1, 1 ); Vec x( sys.n() ); for( auto& v : x ) v = c.num( 2 );
    Params p; p["disable_error_check"] = true; p["force_error_calc"] = true; p["mode"] = high ? "high" : "low"; auto s = makeSolver( m.id, p ); s->setOdeRhs( makeRhs( sys ) ); s->setInitialStepSize( h ); s->setInitialState( t, toV( x ) );
    double e = 0; auto o = cxx::makeScopedIdentifiedElement( s->odeSolverPostObservers, [&]( const PostArg& a ) { e = a.errorNorm(); } ); s->doStep();
    Vec mag, ex = sys.exact( t, x, h, mag ); double sc = norm( mag ); Params q = p; q["mode"] = "low"; auto l = makeSolver( m.id, q ); l->setOdeRhs( makeRhs( sys ) ); l->setInitialStepSize( h ); l->setInitialState( t, toV( x ) ); l->doStep();
    double d = norm( add( ex, toVec( l->initialState() ), -1 ) ); c.log << m.id << " " << sys.str() << " from t=" << t << " " << str( x ) << " h " << h << ": estimate " << e << ", error " << d;
    EXPECT( close( e, d, sc + d, 1e-11 ), "estimate", "error estimate " << e << ", error of the lower order solution " << d ); int w = *std::max_element( sys.w.begin(), sys.w.end() );
    if( w <= m.lo ) EXPECT( e <= 1e-11*( sc + norm( x ) ), "estimate", "error estimate " << e << " where both solutions are exact" );
    c.nontrivial( d > 1e-9*sc ); c.label( m.id );
}
PBT( tolerance, 2000, 40000, "integration over an interval with error control: the global error stays within a multiple of the tolerance that depends on the interval and the Lipschitz constant only, and a tighter tolerance takes smaller steps; non-trivial: at least five steps" )
{
    Meth m = c.pick( meths() ); Smooth s = genSmooth( c, 3, 1 ); Vec x( s.n() ); for( auto& v : x ) v = c.real( -1, 1 ); double T = 1, t = c.real( -1, 1 ), tol = c.logreal( 1e-8, 1e-4 ); Ctl k; k.tol = tol; k.maxThr = .3;
    auto sol = makeSolver( m.id, k.solverParams() ); sol->setOdeRhs( makeRhs( s ) ); sol->setInitialStepSize( c.logreal( 1e-3, .3 ) ); sol->setInitialState( t, toV( x ) ); int n = 0; while( sol->initialTime() < t + T && n < 20000 ) { sol->doStep(); ++n; }
    double h = sol->initialTime() - t; Vec ref = refSolve( [&]( double t, const Vec& x ) { return s.f( t, x ); }, t, x, h, 2000 ); double L = 0; for( unsigned i = 0; i < s.n(); ++i ) { double q = i < s.nd ? 1 : std::fabs( s.w[i] ); for( double a : s.A[i] ) q += std::fabs( a ); L = std::max( L, q ); }
    double e = dist( toVec( sol->initialState() ), ref ), b = 2*n*tol*std::exp( L*h ) + 1e-9*( 1 + norm( ref ) ); c.log << m.id << " " << s.str() << " from t=" << t << " " << str( x ) << " tol " << tol << ": " << n << " steps, error " << e << ", bound " << b;
    EXPECT( n < 20000, "tolerance", "no end after 20000 steps" ); EXPECT( e <= b, "tolerance", "global error " << e << " with tolerance " << tol << " after " << n << " steps" ); c.nontrivial( n >= 5 );
}
PBT( controller, 60000, 1000000, "the step size controller alone: random parameters, step sizes from 1e-12 to 1e3, orders 1 to 12, errors from 0 and denormal through values at the tolerance and within rounding of every threshold to infinity and not-a-number; oracle: the control law; non-trivial: the error is neither zero nor infinite" )
{
    Ctl k = genCtl( c ); auto sc = Factory<OdeStepSizeController<VD>>::newInstance( "simple" ); sc->setParameters( k.params() ); double h = c.logreal( 1e-12, 1e3 ); int order = c.range( 1, 12 ), n = c.range( 1, 4 );
    for( int i = 0; i < n; ++i ) {
        double e = 0; switch( c.range( 0, 7 ) ) { case 0: e = c.pick( std::vector<double>{ 0, 5e-324, 1e-300, INFINITY, NAN, 1e300 } ); break; case 1: e = k.tol*c.pick( std::vector<double>{ 1, 1 + 1e-15, 1 - 1e-15, 1 + 1e-7, 1 + 1e-3, .999 } ); break; case 2: { double f = c.pick( std::vector<double>{ k.incMin, k.incMax, k.decMax, k.maxThr/h } ); if( f <= 0 ) f = 1; e = k.tol*std::pow( k.ins/f, order+1 )*( 1 + c.real( -1e-3, 1e-3 ) ); break; } default: e = k.tol*c.logreal( 1e-9, 1e9 ); }
        auto r = sc->controlStepSize( h, e, order ); c.log << k.str() << " h " << h << " error " << e << " order " << order << " -> " << r.newStepSize << ( r.acceptStep ? " accept" : " reject" ) << ( r.changeStepSize ? " change" : "" ) << "\n"; EXPECT( k.allows( h, e, order, r.acceptStep, r.changeStepSize, r.newStepSize ), "law", "controller does not follow its parameters" ); c.nontrivial( e != 0 && std::isfinite( e ) ); if( r.newStepSize > 0 ) h = r.newStepSize;
    }
}
