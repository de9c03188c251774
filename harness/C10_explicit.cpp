// C10 - explicit fixed-step methods attain their order
#include "ode_common.h"

struct Method { std::string id; int mode; int order, stages; };   // mode: -1 none, 0 high, 1 low
static const std::vector<Method>& methods()
{
    static std::vector<Method> m{ { "euler", -1, 1, 1 }, { "rk4", -1, 4, 4 }, { "dopri_45", 0, 5, 7 }, { "dopri_45", 1, 4, 7 }, { "dopri_56", 0, 6, 8 }, { "dopri_56", 1, 5, 8 }, { "dopri_78", 0, 8, 13 }, { "dopri_78", 1, 7, 13 }, { "gragg", -1, 2, 3 } };
    return m;
}
static std::shared_ptr<Solver> make( const Method& m, double h, bool forceErr = false, bool smooth = false )
{
    Params p; if( m.mode >= 0 ) { p["disable_error_check"] = true; p["mode"] = m.mode ? "low" : "high"; if( forceErr ) p["force_error_calc"] = true; } if( smooth ) p["smooth"] = true;
    auto s = makeSolver( m.id, p ); s->setInitialStepSize( h ); return s;
}

PBT( exact, 60000, 1000000, "a fixed-step method of order p integrates random polynomial systems (first and second order variables, time dependent) whose solution has degree at most p, from a random state and time, over a few steps of random size (also negative), "
     "with restarts from another state and another system in between; oracle: the exact solution to rounding, step by step; right hand side evaluated within the step and not more often than the method has stages; observers told the step; non-trivial: some component has weight p >= 2 or p = 1" )
{
    Method m = c.pick( methods() ); bool err = m.mode >= 0 && c.chance( 1, 4 ), smooth = m.id == "gragg" && c.flip(); int restarts = c.range( 1, 3 );
    double h = c.chance( 1, 8 ) ? -c.logreal( .01, 1 ) : c.logreal( .01, 2 ); auto s = make( m, h, err, smooth ); EXPECT( s->order() == m.order, "order", m.id << " mode " << m.mode << " reports order " << s->order() );
    c.log << m.id << ( m.mode == 0 ? " high" : m.mode == 1 ? " low" : "" ) << " h " << h << ( smooth ? " smooth" : "" ); c.label( m.id + ( m.mode == 0 ? " high" : m.mode == 1 ? " low" : "" ) );
    std::vector<double> pre; std::vector<PostArg> post; const Solver *ps = s.get();
    auto o1 = cxx::makeScopedIdentifiedElement( s->odeSolverPreObservers, [&]( double hh, const Solver *q ) { EXPECT( q == ps, "observer", "pre-observer is given another solver" ); pre.push_back( hh ); } );
    auto o2 = cxx::makeScopedIdentifiedElement( s->odeSolverPostObservers, [&]( const PostArg& a ) { EXPECT( a.solver() == ps, "observer", "post-observer is given another solver" ); post.push_back( a ); } );
    for( int q = 0; q < restarts; ++q ) {
        Nil sys = genNil( c, m.order ); auto r = makeRhs( sys ); s->setOdeRhs( r ); if( q && c.flip() ) { h = c.logreal( .01, 2 ); s->setInitialStepSize( h ); }
        double t = c.chance( 1, 3 ) ? 0 : c.chance( 1, 4 ) ? -c.range( 1, 4 )*h : c.real( -2, 2 ); Vec x( sys.n() ); for( auto& v : x ) v = c.num( 2 );
        s->setInitialState( t, toV( x ) ); c.log << " | " << sys.str() << " from t=" << t << " " << str( x ) << " h " << h; r->record = true;
        EXPECT( s->initialTime() == t && same( s->initialState(), x ), "state", "state is not the one set" );
        int steps = c.range( 1, 4 ); for( unsigned i = 0; i < sys.n(); ++i ) c.nontrivial( sys.w[i] == m.order );
        for( int k = 0; k < steps; ++k ) {
            pre.clear(); post.clear(); r->args.clear(); r->before.clear(); s->doStep();
            EXPECT( pre.size() == 1 && pre[0] == h, "observer", "pre-observer called " << pre.size() << " times, step size " << str( pre ) );
            EXPECT( post.size() == 1 && post[0].stepSize() == h && post[0].stepAccepted() && !post[0].stepSizeChanged() && !post[0].stepTruncated(), "observer", "post-observer called " << post.size() << " times" );
            EXPECT( r->before.size() == 1 && r->before[0].first == t && ( smooth || sameV( r->before[0].second, x ) ), "beforeStep", "not called once with the state at step start" );
            EXPECT( int( r->args.size() ) <= m.stages, "evaluations", r->args.size() << " evaluations in a step of a method with " << m.stages << " stages" );
            for( auto& a : r->args ) EXPECT( close( a.first, t + h/2, 1, std::fabs( h/2 ) + 1e-12 ), "evaluations", "evaluated at t=" << a.first << " in a step from " << t << " to " << t + h );
            Vec mag, e = sys.exact( t, x, h, mag ); double scale = norm( mag ) + 1e-300; t += h; Vec y = toVec( s->initialState() );
            EXPECT( close( s->initialTime(), t, std::fabs( h ) + std::fabs( t ), 4e-16 ) || ( std::fabs( t ) < 1e-3*std::fabs( h ) && s->initialTime() == t ), "time", "time is " << s->initialTime() << ", expected " << t ); t = s->initialTime();
            EXPECT( y.size() == e.size(), "exact", "wrong size" );
            for( unsigned i = 0; i < e.size(); ++i ) EXPECT( close( y[i], e[i], scale + std::fabs( y[i] ), 1e-11 ), "exact", "component " << i << " is " << y[i] << ", exact value " << e[i] << " (step " << k << ")" );
            x = y;
            if( m.id == "gragg" ) { if( k == 0 ) c.label( "gragg continued", steps > 1 ); }
        }
    }
}

PBT( converges, 3000, 60000, "fixed-step methods on random smooth nonlinear systems: halving the step over a fixed interval reduces the error as the order promises, with an accurate reference; non-trivial: the coarse error is well above rounding" )
{
    Method m = c.pick( methods() ); bool smooth = m.id == "gragg" && c.flip(); Smooth sys = genSmooth( c, 4, 1 ); double t = c.real( -1, 1 ); Vec x( sys.n() ); for( auto& v : x ) v = c.real( -1, 1 );
    Fn f = [&]( double t, const Vec& x ) { return sys.f( t, x ); }; double T = m.order >= 6 ? .8 : .5; Vec ref = refSolve( f, t, x, T, 1000 ); double sc = norm( ref ) + norm( x ) + 1;
    c.log << m.id << " " << m.mode << " " << sys.str() << " from t=" << t << " " << str( x ) << " over " << T;
    double e[2]; int n0 = m.order >= 6 ? 2 : m.order >= 4 ? 4 : 32;
    for( int k = 0; k < 2; ++k ) { int n = n0 << k; auto s = make( m, T/n, false, smooth ); s->setOdeRhs( makeRhs( sys ) ); s->setInitialState( t, toV( x ) ); for( int i = 0; i < n; ++i ) s->doStep(); e[k] = dist( toVec( s->initialState() ), ref ); }
    double bound = sc*( m.order == 1 ? .3 : m.order == 2 ? .02 : m.order == 4 ? 1e-3 : m.order == 5 ? 1e-3 : 1e-4 );
    c.log << " errors " << e[0] << ", " << e[1];
    EXPECT( e[0] <= bound, "accuracy", "error " << e[0] << " above " << bound );
    EXPECT( e[1] <= .75*e[0] + 1e-3*bound*std::pow( .5, m.order ) + 1e-11*sc, "accuracy", "error does not decrease with the step: " << e[0] << " -> " << e[1] );
    c.nontrivial( e[0] > 1e-9*sc ); c.label( m.id );
}

PBT( another_system, 20000, 300000, "in the middle of a run by a fixed-step method the solver is given another system of the same size, without a new initial state; oracle: the run continues, bit by bit, as that of a new solver started with the other system from the same time and state; non-trivial: at least one step before and two after" )
{
    Method m = c.pick( methods() ); Smooth a = genSmooth( c, 4, 2 ), b; unsigned n = a.n(); b = a; for( auto& row : b.A ) for( auto& v : row ) if( v != 0 || c.chance( 1, 3 ) ) v += c.num( 1 ); for( unsigned i = 0; i < a.nd; ++i ) b.A[i] = a.A[i];
    double h = c.logreal( .01, .3 ), t = c.num( 2 ); Vec x = c.nums( n, 2 ); auto s = make( m, h ), f = make( m, h ); s->setOdeRhs( makeRhs( a ) ); s->setInitialState( t, toV( x ) ); int changes = c.range( 1, 3 ), steps = 0;
    c.log << m.id << " " << m.mode << " h " << h << " " << a.str() << " then " << b.str() << " from t=" << t << " " << str( x ); bool two = false;
    for( int q = 0; q < changes; ++q ) {
        int k = c.range( q ? 1 : 0, 3 ), l = c.range( 1, 3 ); for( int i = 0; i < k; ++i ) s->doStep(); steps += k; two = two || ( steps && l >= 2 );
        auto ra = makeRhs( q & 1 ? a : b ), rb = makeRhs( q & 1 ? a : b ); s->setOdeRhs( ra ); f->setOdeRhs( rb ); f->setInitialState( s->initialTime(), s->initialState() );
        for( int i = 0; i < l; ++i ) { s->doStep(); f->doStep(); ++steps; c.log << " " << str( toVec( s->initialState() ) ); EXPECT( s->initialTime() == f->initialTime() && sameV( toVec( s->initialState() ), toVec( f->initialState() ) ), "another-system", "step " << i << " with the other system leads to " << str( toVec( s->initialState() ) ) << ", a new solver comes to " << str( toVec( f->initialState() ) ) ); }
    }
    c.nontrivial( two ); c.label( m.id );
}
