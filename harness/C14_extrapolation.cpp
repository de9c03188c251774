// C14 - extrapolation: order, step sequences, error estimate, control, misuse
#include "ode_common.h"

struct Cfg { std::string ref; bool sym; std::string seq; int stages; };
static std::vector<int> sequence( const std::string& s, int m )
{
    static const std::vector<int> b{ 1, 2, 3, 4, 6, 8, 12, 16, 24, 32, 48, 64 }; std::vector<int> r;
    for( int i = 0; i < m; ++i ) r.push_back( s == "romberg" ? 1 << i : s == "harmonic" ? i+1 : b[i] ); return r;
}
static Params refParams( const std::string& ref ) { Params p; if( ref == "i_euler" ) { Params e; e["abs_tol"] = 1e-13; e["rel_tol"] = 1e-3; e["rel_max_threshold"] = 0.; Params n; n["err"] = OptionalParameters::Value( "simple", e ); p["algsolver"] = OptionalParameters::Value( "newton", n ); } if( ref == "dopri_45" ) p["disable_error_check"] = true; return p; }
static Params params( const Cfg& f, Params p = Params() )
{ p["symmetric"] = f.sym; p["step_sequence"] = OptionalParameters::Value( f.seq, Params() ); p["max_stages"] = unsigned( f.stages ); p["reference_solver"] = OptionalParameters::Value( f.ref, refParams( f.ref ) ); return p; }
static Cfg gen( pbt::Ctx& c, bool any )
{
    Cfg f; f.ref = any ? c.pick( std::vector<std::string>{ "euler", "gragg", "euler", "gragg", "rosenbrock_w1", "rk4", "dopri_45", "i_euler" } ) : c.pick( std::vector<std::string>{ "euler", "gragg" } ); f.sym = f.ref == "gragg" && !c.chance( 1, 5 );
    f.seq = c.pick( std::vector<std::string>{ "romberg", "harmonic", "bulirsch" } ); f.stages = c.range( 1, f.seq == "romberg" ? 5 : 6 ); return f;
}
// value at zero of the polynomial through ( z_j, T_j ); amp: sum of magnitudes of the weights
static Vec extrapolate( const std::vector<int>& n, const std::vector<Vec>& T, unsigned from, bool sym, double& amp )
{
    Vec r( T[0].size(), 0. ); amp = 0; auto z = [&]( unsigned j ) { double v = 1./n[j]; return sym ? v*v : v; };
    for( unsigned j = from; j < n.size(); ++j ) { double w = 1; for( unsigned i = from; i < n.size(); ++i ) if( i != j ) w *= -z( i )/( z( j ) - z( i ) ); r = add( r, T[j], w ); amp += std::fabs( w ); } return r;
}
// n small steps of the reference method, written out
static Vec smallSteps( const std::string& ref, const Fn& f, double t, const Vec& x, double H, int n )
{
    double h = H/n; Vec u = x, v = x;
    if( ref == "euler" ) { for( int i = 0; i < n; ++i ) u = add( u, f( t + i*h, u ), h ); }
    else for( int i = 0; i < n; ++i ) { Vec m = add( v, f( t + i*h, u ), h/2 ); u = add( u, f( t + i*h + h/2, m ), h ); v = add( m, f( t + i*h + h, u ), h/2 ); }
    return u;
}
static int order( const Cfg& f ) { int rs = f.ref == "gragg" ? 2 : f.ref == "rk4" || f.ref == "dopri_45" ? 4 : 1; return std::max( rs, f.stages*( f.sym ? 2 : 1 ) ); }

PBT( exact, 20000, 300000, "extrapolation of Euler, Gragg, linearly implicit Euler, RK4 and Dormand-Prince with each step sequence and 1 to 6 stages on random polynomial systems whose solution has degree at most the reported order; oracle: exact solution; non-trivial: at least two stages and degree equal to the order" )
{
    Cfg f = gen( c, true ); if( f.ref == "i_euler" ) f.ref = "euler"; if( f.stages > 4 && f.sym ) f.stages = 4; Params p; p["disable_error_check"] = true; auto s = makeSolver( "extrapolator", params( f, p ) ); int o = order( f ); EXPECT( s->order() == o, "order", f.ref << ( f.sym ? " symmetric " : " " ) << f.stages << " stages: reported order " << s->order() << ", attained " << o );
    Nil n = genNil( c, o ); double h = c.logreal( .05, 1 ), t = c.real( -1, 1 ); Vec x( n.n() ); for( auto& v : x ) v = c.num( 2 ); s->setOdeRhs( makeRhs( n ) ); s->setInitialStepSize( h ); s->setInitialState( t, toV( x ) ); c.log << f.ref << ( f.sym ? " symmetric " : " " ) << f.seq << " " << f.stages << " stages, order " << o << " " << n.str() << " h " << h << " t " << t << " " << str( x ); int k = c.range( 1, 3 );
    for( int i = 0; i < k; ++i ) { s->doStep(); Vec mag, ex = n.exact( t, x, h, mag ), got = toVec( s->initialState() ); double tol = 1e-9*( 1 + norm( mag ) ); if( norm( mag ) > 1e8 ) break; EXPECT( dist( got, ex ) <= tol, "order", "state " << str( got ) << " after step " << i << ", expected " << str( ex ) ); EXPECT( s->initialTime() == t + h, "time", "time " << s->initialTime() ); t = s->initialTime(); x = got; }
    c.nontrivial( f.stages > 1 && *std::max_element( n.w.begin(), n.w.end() ) == o ); c.label( f.ref ); c.label( f.seq );
}
static void history( pbt::Ctx& c, Smooth s, Cfg f )
{
    Ctl ctl = genCtl( c ); ctl.tol = c.logreal( 1e-8, 1e-2 ); bool noCheck = f.stages == 1 || c.chance( 1, 4 ); double L = 1; for( auto& r : s.A ) for( double a : r ) L += std::fabs( a ); double h0 = c.logreal( .01, 1 )/std::sqrt( L ), hmin = c.chance( 1, 4 ) ? c.logreal( 1e-5, 1e-2 ) : 1e-16; if( !noCheck && ctl.maxThr == 0 ) ctl.maxThr = 2/L;
    Params p = ctl.solverParams(); p["disable_error_check"] = noCheck; p["h_min"] = hmin; p["h_init"] = h0; auto sol = makeSolver( "extrapolator", params( f, p ) ); h0 = sol->initialStepSize(); auto ex = dynamic_cast<OdeSolverExtrapolator<VD>*>( sol.get() ); auto ref = ex->referenceSolver();
    c.log << f.ref << ( f.sym ? " symmetric " : " " ) << f.seq << " " << f.stages << " stages " << ( noCheck ? "nocheck " : "" ) << "h0 " << h0 << " hmin " << hmin << " " << ctl.str() << "\n"; auto seq = sequence( f.seq, f.stages ); int low = order( f ); low = std::max( f.ref == "gragg" ? 2 : f.ref == "rk4" || f.ref == "dopri_45" ? 4 : 1, ( f.stages - 1 )*( f.sym ? 2 : 1 ) );
    bool ev = c.chance( 1, 3 ), trunc = false; std::vector<double> pre, small; std::vector<PostArg> post; double t = 0; Vec x; auto r1 = makeRhs( s ); std::shared_ptr<Solver> tw; Fn fn; int rejected = 0, steps = c.range( 1, 5 ), done = 0; bool own = f.ref == "euler" || f.ref == "gragg"; std::vector<size_t> marks;
    auto o1 = cxx::makeScopedIdentifiedElement( sol->odeSolverPreObservers, [&]( double h, const Solver* ) { marks.push_back( small.size() ); pre.push_back( h ); if( pre.size() > 200 ) throw std::logic_error( "endless" ); } );
    auto o2 = cxx::makeScopedIdentifiedElement( sol->odeSolverPostObservers, [&]( const PostArg& a ) { post.push_back( a );
        if( a.stepAccepted() && a.stepTruncated() ) trunc = true; else if( a.stepAccepted() ) EXPECT( sol->initialTime() == t + a.stepSize(), "time", "after an accepted step time is " << sol->initialTime() << ", expected " << t + a.stepSize() ); else EXPECT( sol->initialTime() == t && same( sol->initialState(), x ), "rejected", "a rejected step has changed time or state" ); } );
    auto o3 = cxx::makeScopedIdentifiedElement( ref->odeSolverPreObservers, [&]( double h, const Solver* ) { small.push_back( h ); } ); double h = h0;
    for( int k = 0; k < steps; ++k ) {
        int what = k == 0 ? 0 : c.pickw( { 1, 1, 6 } );
        if( what == 0 ) {
            if( k && c.flip() ) { s = genSmooth( c, 4, 1 ); }
            t = c.real( -1, 1 ); x.resize( s.n() ); for( auto& v : x ) v = c.real( -2, 2 ); fn = [s]( double t, const Vec& x ) { return s.f( t, x ); }; { auto r = makeRhs( s ); if( ev ) installEvent( c, *r, s.n() ); sol->setOdeRhs( r ); } sol->setInitialState( t, toV( x ) ); h = h0; c.log << "start: " << s.str() << " t=" << t << " " << str( x ) << "\n";
            if( !own ) { tw = makeSolver( f.ref, refParams( f.ref ) ); tw->setOdeRhs( makeRhs( s ) ); tw->setInitialState( t, toV( x ) ); }
        }
        else if( what == 1 ) { t = c.real( -1, 1 ); for( auto& v : x ) v += c.real( -1, 1 ); sol->setInitialState( t, toV( x ), true ); h = h0; c.log << "soft start: t=" << t << " " << str( x ) << "\n"; }
        trunc = false; pre.clear(); post.clear(); small.clear(); marks.clear(); std::string err; try { sol->doStep(); } catch( const pbt::Failure& ) { throw; } catch( const std::exception& e ) { err = e.what(); }
        EXPECT( pre.size() <= 200, "endless", "200 attempts to take one step" ); double hh = h; bool accepted = false; Vec next; double tol = 0;
        // the implicit equations of large steps of the reference solver may have no solution
        auto noSolution = [&]( const std::string& e ) { if( f.ref != "i_euler" || e.find( "Algebraic solver failed" ) == std::string::npos ) return false; double L = 1, m = 0; for( auto& r : s.A ) for( double a : r ) L += std::fabs( a ); for( double q : pre ) m = std::max( m, q ); EXPECT( m*L > .1, "implicit", "reference solver failed with step " << m << ": " << e ); c.label( "implicit step failed" ); return true; };
        if( noSolution( err ) ) return;
        for( size_t i = 0; i < pre.size(); ++i ) {
            EXPECT( close( pre[i], hh, hh, 1e-11 ), "step", "attempt " << i << " uses step size " << pre[i] << ", expected " << hh ); hh = pre[i]; EXPECT( !accepted, "extra", "another attempt after the step was accepted" );
            std::vector<Vec> T; double mag = 1 + norm( x ); size_t at = marks[i], end = i+1 < marks.size() ? marks[i+1] : small.size();
            for( int n : seq ) {
                for( int q = 0; q < n; ++q, ++at ) EXPECT( at < end && close( small[at], hh/n, hh, 1e-13 ), "sequence", "reference solver step " << at - marks[i] << " of attempt " << i << " has size " << ( at < end ? small[at] : NAN ) << ", expected " << hh/n << " (1/" << n << " of the step)" );
                if( own ) T.push_back( smallSteps( f.ref, fn, t, x, hh, n ) );
                else { tw->setInitialState( t, toV( x ), true ); tw->setInitialStepSize( hh/n ); try { for( int q = 0; q < n; ++q ) tw->doStep(); } catch( const cxx::exception& e ) { if( noSolution( e.what() ) ) return; throw; } T.push_back( toVec( tw->initialState() ) ); }
                mag = std::max( mag, norm( T.back() ) );
            }
            EXPECT( at == end, "sequence", end - at << " extra steps of the reference solver" );
            double a1, a2; next = extrapolate( seq, T, 0, f.sym, a1 ); tol = ( own ? 1e-12 : f.ref == "i_euler" ? 1e-10 : 1e-11 )*a1*mag; double e = 0; if( !noCheck ) e = dist( next, extrapolate( seq, T, 1, f.sym, a2 ) );
            if( i < post.size() ) {
                auto& a = post[i]; EXPECT( a.stepSize() == hh, "step", "post-observer is told step size " << a.stepSize() << ", the step taken was " << hh ); EXPECT( std::fabs( a.errorNorm() - e ) <= 2*tol, "error", "error estimate " << a.errorNorm() << ", expected " << e << " (tolerance " << tol << ", attempt " << i << ")" ); double hn = i+1 < pre.size() ? pre[i+1] : NAN;
                if( noCheck ) { EXPECT( a.stepAccepted() && !a.stepSizeChanged(), "control", "step size control is off" ); h = hh; }
                else { bool ok = false; for( auto& q : ctl.predict( hh, a.errorNorm(), low ) ) if( q.accept == a.stepAccepted() && q.change == a.stepSizeChanged() && ( std::isnan( hn ) || close( hn, q.h, q.h, 1e-11 ) ) ) ok = true, h = q.h; EXPECT( ok, "control", "error " << a.errorNorm() << " with step " << hh << ": accepted " << a.stepAccepted() << ", changed " << a.stepSizeChanged() << " -> " << hn ); }
                accepted = a.stepAccepted(); rejected += !accepted; hh = std::isnan( hn ) ? h : hn;
            }
            else {
                bool ok = false; for( auto& q : ctl.predict( hh, e, low ) ) if( q.change && q.h <= hmin*( 1 + 1e-6 ) ) ok = true; if( tol > 1e-4*e ) ok = true;
                EXPECT( ok && !err.empty() && !noCheck, "control", "attempt with step " << hh << " and error " << e << " ended by: " << err ); c.label( "minimum step" ); c.nontrivial(); return;
            }
        }
        EXPECT( err.empty(), "control", "exception: " << err ); EXPECT( accepted, "accept", "doStep() returned without an accepted step" ); Vec got = toVec( sol->initialState() );
        if( trunc ) { EXPECT( ev, "truncated", "a step was truncated without an event" ); c.label( "truncated" ); } else EXPECT( dist( got, next ) <= tol, "state", "step " << k << ": state " << str( got ) << ", expected " << str( next ) << ", tolerance " << tol ); ++done; t = sol->initialTime(); x = got; h = hh; if( !( norm( x ) < 1e3 ) ) break;
    }
    c.nontrivial( f.stages > 1 && ( done > 1 || rejected ) ); c.label( f.ref ); c.label( f.seq ); c.label( "rejected", rejected > 0 );
}
PBT( steps, 8000, 120000, "random smooth systems, every reference solver, sequence and number of stages, controller parameters; sequences of steps with hard and soft restarts; every attempt checked: the reference solver takes n steps of 1/n of the step for each n of the sequence, "
     "the result is the value at zero of the interpolating polynomial in h (or its square), the error is its difference to the one without the first row, acceptance, step size, time, observers; non-trivial: several stages and steps or rejected attempts" )
{ history( c, genSmooth( c, 4, c.pick( std::vector<double>{ 1, 3 } ) ), gen( c, true ) ); }
PBT( misuse, 200, 2000, "extrapolators without reference solver or step sequence, or with too few stages for error control: an exception, no crash; setting what is missing makes it work; non-trivial: all" )
{
    int what = c.range( 0, 3 ); Params p; Cfg f = gen( c, false ); f.stages = what == 2 ? c.range( 0, 1 ) : what == 3 ? 0 : c.range( 2, 4 ); Params q = params( f ); if( what == 0 ) q.erase( "reference_solver" ); if( what == 1 ) q.erase( "step_sequence" ); if( what == 3 ) q["disable_error_check"] = true; auto s = makeSolver( "extrapolator", q );
    s->setOdeRhs( makeRhs( 0, 1, []( double, const Vec& x ) { return Vec{ -x[0] }; } ) ); c.log << "what " << what << " stages " << f.stages; s->setInitialStepSize( .1 ); Vec x{ 1 };
    EXPECT_THROW( { s->setInitialState( 0, toV( x ) ); s->doStep(); }, "misuse", "incomplete setup " << what << " was accepted" );
    f.stages = 3; Params g; g["tolerance"] = 1e3; Params w = params( f ); w["stepsizectl"] = OptionalParameters::Value( "simple", g ); s->setParameters( w ); s->setInitialState( 0, toV( x ) ); s->doStep(); EXPECT( std::fabs( toVec( s->initialState() )[0] - std::exp( -.1 ) ) < 1e-3, "misuse", "wrong result after completing the setup" ); c.nontrivial();
}
