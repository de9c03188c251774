// C12 - implicit alpha method (implicit Euler, trapezoidal rule): the step equation holds after every step, whatever helps to solve it
#include "ode_common.h"
#include "ode_num_int/alg/VectorReorderingMapping.h"

static const std::vector<std::string>& ddirs() { static std::vector<std::string> d{ "simple", "broyden", "fake-broyden", "lazy-fake-broyden", "hart", "const" }; return d; }
static double lipschitz( const Smooth& s ) { double L = 0; for( unsigned i = 0; i < s.n(); ++i ) { double q = i < s.nd ? 1 : std::fabs( s.w[i] ); for( double a : s.A[i] ) q += std::fabs( a ); L = std::max( L, q ); } return L; }
// maximal violation of X = X0 + h((1-a)F0 + aF), U = U0 + h((1-a)V0 + aV)
static double residual( const Fn& f, unsigned nd, double a, double h, double t0, const Vec& x0, const Vec& x1, double& ures, double& sc )
{
    Vec f0 = a == 1 ? Vec( x0.size(), 0. ) : f( t0, x0 ), f1 = f( t0 + h, x1 ); double r = 0; ures = 0; sc = 1;
    for( unsigned i = 0; i < nd; ++i ) ures = std::max( ures, std::fabs( x1[i] - x0[i] - h*( ( 1-a )*x0[nd+i] + a*x1[nd+i] ) ) );
    for( unsigned i = nd; i < x0.size(); ++i ) { double v = std::fabs( x1[i] - x0[i] - h*( ( 1-a )*f0[i] + a*f1[i] ) ); if( !( v <= r ) ) r = v; }
    sc += norm( x0 ) + norm( x1 ) + h*( norm( f0 ) + norm( f1 ) ); return r;
}
struct Setup { std::string ddir, pred; bool sparse; int predSteps; double alpha, tol; Params params() const {
    Params e; e["abs_tol"] = tol; e["rel_max_threshold"] = 0.;      // off: a solution near zero would count as divergence
    Params n; n["ddir"] = OptionalParameters::Value( ddir, Params() ); n["jacobian"] = OptionalParameters::Value( sparse ? "sparse" : "default", Params() ); n["err"] = OptionalParameters::Value( "simple", e );
    Params p; p["alpha"] = alpha; p["algsolver"] = OptionalParameters::Value( "newton", n ); if( !pred.empty() ) { p["predictor"] = OptionalParameters::Value( pred, Params() ); p["predictor_steps"] = unsigned( predSteps ); } return p; }
    std::string str() const { std::ostringstream o; o.precision( 17 ); o << ddir << ( sparse ? " sparse" : "" ) << " predictor '" << pred << "' x" << predSteps << " alpha " << alpha << " tol " << tol; return o.str(); } };
static Setup genSetup( pbt::Ctx& c )
{
    Setup s; s.ddir = c.pick( ddirs() ); s.sparse = c.flip(); s.pred = c.flip() ? "" : c.pick( std::vector<std::string>{ "euler", "rk4", "dopri_45", "gragg", "rosenbrock_w1" } ); s.predSteps = c.range( 1, 3 );
    s.alpha = c.pick( std::vector<double>{ 1, .5, .5, 0, .75 } ); if( c.chance( 1, 4 ) ) s.alpha = c.real( 0, 1 ); s.tol = c.flip() ? 1e-6 : c.logreal( 1e-10, 1e-4 ); return s;
}
static void reorder( pbt::Ctx& c, OdeSolverImplicitEuler<VD> *s, unsigned n, std::string& txt )
{
    auto r = std::make_shared<VectorReorderingMapping<VD>>(); auto q = c.perm( n ); std::vector<unsigned> a( q.begin(), q.end() ); auto q2 = c.flip() ? q : c.perm( n ); std::vector<unsigned> b( q2.begin(), q2.end() );
    // a permutation of equations must leave an LU-factorizable Jacobian: keep equations and variables together
    r->setInputOrdering( a ); r->setOutputOrdering( a ); s->setReorder( r ); txt = " reordered"; for( unsigned v : a ) txt += " " + std::to_string( v );
}
static void history( pbt::Ctx& c, Smooth s, bool stiff )
{
    Setup u = genSetup( c ); if( stiff ) { u.ddir = c.pick( std::vector<std::string>{ "simple", "simple", "broyden", "hart" } ); u.pred = ""; u.alpha = std::max( u.alpha, .5 ); u.tol = std::max( u.tol, 1e-7 ); } double L = lipschitz( s ), h = stiff ? c.logreal( .001, 5 ) : c.logreal( .002, .3 )/( L + .1 );
    auto sol = makeSolver( "i_euler", u.params() ); auto ie = dynamic_cast<OdeSolverImplicitEuler<VD>*>( sol.get() ); bool byParam = c.flip(); if( byParam ) { Params p; p["h_init"] = h; sol->setParameters( p ); h = sol->initialStepSize(); } else sol->setInitialStepSize( h ); std::string txt; bool re = c.chance( 1, 3 );
    double t = 0; Vec x; Fn f; int steps = c.range( 1, 6 ), iters = 0, done = 0; bool restarted = false; std::vector<double> pre; std::vector<PostArg> post; c.log << u.str() << " h " << h << "\n";
    auto o1 = cxx::makeScopedIdentifiedElement( sol->odeSolverPreObservers, [&]( double h, const Solver* ) { pre.push_back( h ); } );
    auto o2 = cxx::makeScopedIdentifiedElement( sol->odeSolverPostObservers, [&]( const PostArg& a ) { post.push_back( a ); } );
    auto o3 = cxx::makeScopedIdentifiedElement( sol->iterationObservers, [&]( unsigned, const NewtonSolverInterface<VD>* ) { ++iters; return false; } );
    for( int k = 0; k < steps; ++k ) {
        int what = k == 0 ? 0 : c.pickw( { 1, 1, 1, 1, 5 } );
        if( what == 0 ) {
            if( k && c.flip() && !stiff ) { Smooth n = genSmooth( c, 4, 2 ); if( lipschitz( n )*h < .3 ) { s = n; L = lipschitz( s ); restarted = true; } }
            t = c.real( -1, 1 ); x.resize( s.n() ); for( auto& v : x ) v = c.real( -2, 2 ); f = [s]( double t, const Vec& x ) { return s.f( t, x ); };
            sol->setOdeRhs( makeRhs( s ) ); if( k && c.chance( 1, 3 ) ) { re = !re; if( !re ) { txt = " declared order again"; if( c.flip() ) { Params p; p["reorder"] = OptionalParameters::Value( "", Params() ); sol->setParameters( p ); } else ie->setReorder( nullptr ); } } if( re ) reorder( c, ie, s.nd + s.n1, txt ); sol->setInitialState( t, toV( x ) ); c.log << "start: " << s.str() << txt << " t=" << t << " " << str( x ) << "\n";
        }
        else if( what == 1 ) { if( c.flip() ) t = c.real( -1, 1 ); for( auto& v : x ) v += c.real( -1, 1 ); sol->setInitialState( t, toV( x ), true ); c.log << "soft start: t=" << t << " " << str( x ) << "\n"; }
        else if( what == 2 ) { h *= c.real( .3, 1.05 ); sol->setInitialStepSize( h ); c.log << "step size " << h << "\n"; }
        else if( what == 3 ) { u.alpha = c.real( stiff ? .5 : 0, 1 ); Params p; p["alpha"] = u.alpha; sol->setParameters( p ); c.log << "alpha " << u.alpha << "\n"; }
        pre.clear(); post.clear(); iters = 0; sol->doStep(); Vec y = toVec( sol->initialState() );
        EXPECT( pre.size() == 1 && post.size() == 1 && pre[0] == h && post[0].stepSize() == h && post[0].stepAccepted() && !post[0].stepSizeChanged() && !post[0].stepTruncated() && post[0].solver() == sol.get(), "observers", "step observers are told something else than step " << h );
        EXPECT( sol->initialTime() == t + h, "time", "time is " << sol->initialTime() << ", expected " << t + h ); EXPECT( y.size() == x.size(), "state", "state has " << y.size() << " elements" ); EXPECT( iters > 0, "observers", "no iteration was reported" );
        double ur, sc, r = residual( f, s.nd, u.alpha, h, t, x, y, ur, sc ); EXPECT( ur <= 1e-13*sc, "displacements", "displacements deviate from the rule by " << ur << ": " << str( x ) << " -> " << str( y ) );
        EXPECT( r <= u.tol*( 1 + 1e-6 ) + 1e-13*sc, "equation", "step equation is violated by " << r << " (tolerance " << u.tol << "): " << str( x ) << " -> " << str( y ) );
        t = sol->initialTime(); x = y; ++done;
    }
    c.nontrivial( done > 1 && s.nd + s.n1 > 1 ); c.label( u.ddir ); c.label( "predictor", !u.pred.empty() ); c.label( "reordered", re ); c.label( "another system", restarted ); c.label( "second order", s.nd > 0 );
}
PBT( steps, 6000, 100000, "random smooth nonlinear systems with first and second order variables, all directions and Jacobian providers, predictors, variable orders, implicitness and tolerances; sequences of steps with hard and soft restarts (other systems included), changes of step size and alpha; "
     "oracle: the step equation to the tolerance of the algebraic solver, the displacement rule to rounding, time, observers; non-trivial: several equations and steps" )
{ history( c, genSmooth( c, 5, c.pick( std::vector<double>{ 1, 4 } ) ), false ); }
PBT( stiff, 3000, 50000, "the same with dissipative systems with eigenvalues up to -1e4 and steps up to 5; non-trivial: as above" )
{
    Smooth s = genSmooth( c, 4, .5 );
    for( unsigned i = 0; i < s.nd; ++i ) { double k = c.logreal( 1, 1e4 ); for( unsigned j = 0; j < s.n(); ++j ) s.A[s.nd+i][j] = 0; s.A[s.nd+i][i] = -k; s.A[s.nd+i][s.nd+i] = -c.real( .5, 2 )*std::sqrt( k ); s.w[s.nd+i] = 0; }
    for( unsigned i = 2*s.nd; i < s.n(); ++i ) { double q = 1; for( unsigned j = 0; j < s.n(); ++j ) q += std::fabs( s.A[i][j] ); s.A[i][i] = -( 3*q + c.logreal( 1, 1e4 ) ); s.w[i] *= .5; }
    history( c, s, true );
}
PBT( failure, 4000, 60000, "systems whose step equation has no solution (x' = k + x^2 with too large a step) or whose right hand side is not a number away from the start: doStep() ends by an exception that names the reason, time and state stay, and with a small enough step the solver goes on; non-trivial: every case" )
{
    bool nan = c.flip(); unsigned n = c.range( 1, 3 ), bad = c.range( 0, n-1 ); Vec k( n ), x( n ); for( auto& v : k ) v = c.real( .5, 2 ); for( auto& v : x ) v = c.real( 0, 1 ); double t = c.real( -1, 1 ), lim = x[bad] + 1;
    Fn f = [=]( double, const Vec& x ) { Vec r( n ); for( unsigned i = 0; i < n; ++i ) r[i] = nan ? k[i] : k[i] + ( i == bad ? x[i]*x[i] : -x[i] ); if( nan && x[bad] > lim ) r[bad] = NAN; return r; };
    Setup u = genSetup( c ); u.alpha = c.real( .5, 1 ); u.pred = ""; auto s = makeSolver( "i_euler", u.params() ); s->setOdeRhs( makeRhs( 0, n, f ) ); double h = nan ? 1.5/k[bad] + .5 : 1/( u.alpha*u.alpha*k[bad] ) + 2; int pre = 0, post = 0;
    auto o1 = cxx::makeScopedIdentifiedElement( s->odeSolverPreObservers, [&]( double, const Solver* ) { ++pre; } ); auto o2 = cxx::makeScopedIdentifiedElement( s->odeSolverPostObservers, [&]( const PostArg& ) { ++post; } );
    // no real root: a^2 h^2 ... discriminant of h a X^2 - X + c with c = x0 + h(1-a)F0 + h a k is below zero
    if( !nan ) { double f0 = k[bad] + x[bad]*x[bad], C = x[bad] + h*( 1-u.alpha )*f0 + h*u.alpha*k[bad]; if( 1 - 4*h*u.alpha*C >= -.1 ) c.discard(); } bool soft = c.flip();
    s->setInitialStepSize( h ); s->setInitialState( t, toV( x ) ); c.log << u.str() << " n " << n << " bad " << bad << ( nan ? " nan" : "" ) << " k " << str( k ) << " x " << str( x ) << " t " << t << " h " << h; std::string err;
    int tries = c.range( 1, 2 ); for( int i = 0; i < tries; ++i ) { err.clear(); try { s->doStep(); } catch( const std::exception& e ) { err = e.what(); }
        EXPECT( err.find( "Algebraic solver failed" ) == 0, "failure", "expected an exception about the algebraic solver, got '" << err << "'" ); EXPECT( s->initialTime() == t && same( s->initialState(), x ), "failure", "time or state have changed: " << s->initialTime() << " " << str( toVec( s->initialState() ) ) ); EXPECT( post == 0 && pre == i+1, "observers", "a failed step was reported as done" ); }
    h = c.logreal( .001, .02 ); s->setInitialStepSize( h ); if( soft ) s->setInitialState( t, toV( x ), true ); else if( c.flip() ) s->setInitialState( t, toV( x ) ); s->doStep(); double ur, sc, r = residual( f, 0, u.alpha, h, t, x, toVec( s->initialState() ), ur, sc );
    EXPECT( r <= u.tol*( 1 + 1e-6 ) + 1e-13*sc && s->initialTime() == t + h, "recovery", "step equation is violated by " << r << " after a failed step" ); c.nontrivial(); c.label( u.ddir );
}
PBT( after_event, 4000, 60000, "random smooth systems with zero functions or ending steps themselves, all directions; oracle: a step after an event computes the Jacobian anew, whatever the direction keeps otherwise, and a constant Jacobian is not computed again without an event, a hard start or a failure; non-trivial: an event followed by a step" )
{
    Setup u = genSetup( c ); u.pred = ""; auto s = genSmooth( c, 4, 2 ); auto r = makeRhs( s ); installEvent( c, *r, s.n() ); double h = c.logreal( .01, .2 )/( lipschitz( s ) + 1 ); auto sol = makeSolver( "i_euler", u.params() ); sol->setInitialStepSize( h ); sol->setOdeRhs( r ); int refresh = 0, iters = 0; sol->jacobianRefreshObservers.add( [&]( bool start ) { refresh += start; } ); bool trunc = false, was = false; int seen = 0; sol->odeSolverPostObservers.add( [&]( const PostArg& a ) { trunc = a.stepTruncated(); } ); sol->iterationObservers.add( [&]( unsigned, const NewtonSolverInterface<VD>* ) { ++iters; return false; } );
    Vec x( s.n() ); for( auto& v : x ) v = c.num( 2 ); sol->setInitialState( c.real( -1, 1 ), toV( x ) ); c.log << u.str() << " h " << h << " " << s.str() << " " << str( x ); int steps = c.range( 2, 10 ), dirs = 0; dynamic_cast<NewtonSolverHolder<VD>*>( sol.get() )->newtonSolver()->iterationPerformer()->newtonDescentDirection()->ddirPostObservers.add( [&]( const V& ) { ++dirs; } );
    for( int k = 0; k < steps; ++k ) { refresh = iters = dirs = 0; try { sol->doStep(); } catch( const cxx::exception& ) { break; } if( ( k == 0 || was ) && dirs > 0 ) EXPECT( refresh > 0, "refresh", "step " << k << " after " << ( k ? "an event" : "a hard start" ) << " makes " << dirs << " directions without computing the Jacobian" ); if( was ) { ++seen; } else if( k && u.ddir == "const" && dirs == 1 ) EXPECT( refresh == 0, "kept", "step " << k << " computes the constant Jacobian " << refresh << " times" ); was = trunc || ( !dirs && ( was || k == 0 ) ); }
    c.nontrivial( seen > 0 ); c.label( u.ddir );
}

PBT( step_mapping, 20000, 300000, "the step equation as a mapping: value at random points after changes of state, time, step, implicitness and system in any order, conversion between system state and unknowns, names of unknowns; oracle: the formulas; non-trivial: second order variables and a change after an evaluation" )
{
    Smooth s = genSmooth( c, 5, 2 ); auto r = makeRhs( s ); OdeStepMappingEuler<VD> m; m.setOdeRhs( r ); double t = c.real( -1, 1 ), h = m.timeStep(), a = m.implicitnessParameter(); unsigned n = s.n(), ne = s.nd + s.n1; Vec x( n ); for( auto& v : x ) v = c.num( 2 ); m.setInitialState( t, toV( x ) ); int evals = 0; bool late = false;
    EXPECT( m.inputSize() == ne && m.outputSize() == ne, "size", "size " << m.inputSize() << " x " << m.outputSize() ); c.log << s.str(); int k = c.range( 1, 10 );
    for( int i = 0; i < k; ++i ) switch( c.range( 0, 6 ) ) {
        case 0: if( c.flip() ) t = c.real( -1, 1 ); if( c.chance( 3, 4 ) ) for( auto& v : x ) v = c.num( 2 ); m.setInitialState( t, toV( x ) ); c.log << " t " << t << " " << str( x ); late |= evals > 0; break;
        case 1: if( c.chance( 2, 3 ) ) h = c.logreal( .01, 2 ); if( c.flip() ) m.setTimeStep( h ); else { Params p; p["h"] = h; m.setParameters( p ); EXPECT( close( m.timeStep(), h, h, 1e-14 ), "parameters", "step " << m.timeStep() << " set to " << h ); h = m.timeStep(); } c.log << " h " << h; late |= evals > 0; break;
        case 2: a = c.real( 0, 1 ); if( c.flip() ) m.setImplicitnessParameter( a ); else { Params p; p["alpha"] = a; m.setParameters( p ); EXPECT( close( m.implicitnessParameter(), a, 1, 1e-14 ), "parameters", "alpha " << m.implicitnessParameter() << " set to " << a ); a = m.implicitnessParameter(); } c.log << " alpha " << a; late |= evals > 0; break;
        case 3: for( unsigned q = s.nd; q < n; ++q ) for( auto& v : s.A[q] ) if( c.chance( 1, 3 ) ) v += c.num( 1 ); if( c.flip() ) s.w[s.nd] = c.num( 2 ); r = makeRhs( s ); m.setOdeRhs( r ); c.log << " another system " << s.str(); late |= evals > 0; break;
        default: {
            Vec y( ne ); for( auto& v : y ) v = c.num( 3 ); Vec full( n ), f0 = s.f( t, x ); for( unsigned j = 0; j < s.nd; ++j ) full[j] = x[j] + h*( ( 1-a )*x[s.nd+j] + a*y[j] ); for( unsigned j = 0; j < ne; ++j ) full[s.nd+j] = y[j]; Vec f1 = s.f( t + h, full );
            V d; m.map( d, toV( y ) ); Vec g = toVec( d ); ++evals; EXPECT( g.size() == ne, "size", "value has " << g.size() << " elements" );
            for( unsigned j = 0; j < ne; ++j ) { double e = y[j] - x[s.nd+j] - h*( ( 1-a )*f0[s.nd+j] + a*f1[s.nd+j] ), sc = std::fabs( y[j] ) + std::fabs( x[s.nd+j] ) + h*( norm( f0 ) + norm( f1 ) ); EXPECT( close( g[j], e, sc, 1e-12 ), "equation", "element " << j << " of the residual is " << g[j] << ", expected " << e ); }
            Vec o = toVec( m.computeOdeState( toV( y ) ) ); for( unsigned j = 0; j < n; ++j ) EXPECT( close( o[j], full[j], 1 + norm( full ), 1e-13 ), "state", "state " << str( o ) << ", expected " << str( full ) );
            EXPECT( sameV( toVec( m.computeEqnState( toV( full ) ) ), y ), "state", "unknowns of a state are not its last elements" ); EXPECT( sameV( toVec( m.eqnInitialState() ), Vec( x.begin() + s.nd, x.end() ) ), "state", "initial unknowns" ); EXPECT( m.initialTime() == t && same( m.initialState(), x ), "state", "initial state" );
        } }
    c.nontrivial( s.nd > 0 && late );
}
