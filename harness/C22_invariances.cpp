// C22 - runs do not depend on how the problem is posed: origin and unit of time, units, order and coordinates of variables, order of equations, decoupled parts
#include "params.h"

// first and second order variables, events on linear functions of the state with a linear switch
struct Sys { unsigned nd = 0, n1 = 0; Fn f; std::vector<unsigned> flags; std::function<Vec( double, const Vec& )> zf; std::function<void( Vec&, const int* )> sw; Vec x; double t = 0; unsigned n() const { return 2*nd + n1; } };
struct Way { std::string id; Params p; double h = .1; int tol2 = 0; bool exact = false, control = false, jac = false; std::string text; };       // tol2: tolerance is a power of two
static Way genWay( pbt::Ctx& c, bool implicits, int control = -1, bool events = false )
{
    Way w; std::vector<std::string> ids{ "euler", "rk4", "dopri_45", "dopri_56", "dopri_78", "gragg", "extrapolator" }; if( control == 1 ) ids = { "dopri_45", "dopri_56", "dopri_78", "extrapolator" }; if( implicits ) { ids.push_back( "rosenbrock_sw2_4" ); if( control != 1 ) { ids.push_back( "rosenbrock_w1" ); ids.push_back( "i_euler" ); } }
    w.id = c.pick( ids ); w.h = c.logreal( .002, .2 ); bool emb = w.id.compare( 0, 5, "dopri" ) == 0, can = emb || w.id == "extrapolator" || w.id == "rosenbrock_sw2_4"; w.exact = emb || w.id == "euler" || w.id == "rk4" || w.id == "gragg" || w.id == "extrapolator"; w.jac = !w.exact;
    w.control = can && ( control < 0 ? c.flip() : control ); std::ostringstream o; o.precision( 17 ); o << w.id << " h=" << w.h; w.tol2 = -c.range( 8, 20 );
    if( can && !w.control ) w.p["disable_error_check"] = true; if( w.control ) o << " tolerance 2^" << w.tol2; if( emb && c.flip() ) { w.p["mode"] = "high"; o << " high"; }
    if( w.id == "gragg" && c.flip() ) { w.p["smooth"] = true; o << " smooth"; }
    if( w.id == "extrapolator" ) { w.p["step_sequence"] = c.pick( std::vector<std::string>{ "romberg", "bulirsch", "harmonic" } ); bool g = c.flip(); w.p["reference_solver"] = g ? "gragg" : "euler"; w.p["symmetric"] = g; int m = c.range( 2, 4 ); w.p["max_stages"] = m; o << " " << w.p["step_sequence"].value<std::string>() << ( g ? " gragg " : " euler " ) << m; }
    if( w.id == "i_euler" ) { Params e; e["abs_tol"] = 1e-12; e["rel_tol"] = 1e-9; e["rel_max_threshold"] = 0.; Params n; n["err"] = PV( "simple", e ); w.p["algsolver"] = PV( "newton", n ); }
    if( events ) w.p["eventctl"] = "linear"; w.text = o.str(); return w;
}
static std::shared_ptr<Solver> make( const Way& w, double hs = 1, int tols = 0 )
{ Params p = w.p; if( w.control ) { Params k; k["tolerance"] = std::ldexp( 1., w.tol2 + tols ); p["stepsizectl"] = PV( "simple", k ); } if( hs != 1 ) p["h_min"] = 1e-16*hs; auto s = makeSolver( w.id, p ); s->setInitialStepSize( w.h*hs ); return s; }
struct Point { double t; Vec x; double h, err; bool acc, tr; unsigned izf; };
struct Run { std::vector<Point> p; std::string fail; long accepted = 0, events = 0, rejected = 0; };
static Run run( const Way& w, const Sys& s, int steps, double hs = 1, int tols = 0, double limit = 1e8 )
{
    auto r = makeRhs( s.nd, s.n1, s.f ); r->flags = s.flags; r->zf = s.zf; if( s.sw ) r->sw = [&s]( const int *tr, double, Vec& x ) { s.sw( x, tr ); }; auto q = make( w, hs, tols ); q->setOdeRhs( r ); q->setInitialState( s.t, toV( s.x ) ); Run o; long all = 0;
    q->odeSolverPostObservers.add( [&]( const PostArg& a ) { Vec x = toVec( q->initialState() ); o.p.push_back( { q->initialTime(), x, a.stepSize(), a.errorNorm(), a.stepAccepted(), a.stepTruncated(), a.stepTruncated() ? a.izfTrunc() : 0 } ); o.accepted += a.stepAccepted(); o.rejected += !a.stepAccepted(); o.events += a.stepTruncated(); if( ++all > 2000 || !( norm( x ) < limit ) ) throw std::runtime_error( "end" ); } );
    try { for( int i = 0; i < steps; ++i ) q->doStep(); } catch( pbt::Failure& ) { throw; } catch( pbt::Discard& ) { throw; } catch( std::exception& e ) { o.fail = e.what(); } return o;
}
static Sys make( pbt::Ctx& c, const Smooth& s ) { Sys y; y.nd = s.nd; y.n1 = s.n1; y.f = [s]( double t, const Vec& x ) { return s.f( t, x ); }; y.x.resize( s.n() ); for( auto& v : y.x ) v = c.num( 2 ); y.t = c.chance( 1, 3 ) ? 0 : c.real( -2, 2 ); return y; }
// variables of systems in the order second order variables, their speeds, first order variables
static std::vector<unsigned> places( const Sys& a, const Sys& b, bool second ) { std::vector<unsigned> r; const Sys& s = second ? b : a; for( unsigned i = 0; i < s.nd; ++i ) r.push_back( ( second ? a.nd : 0 ) + i ); for( unsigned i = 0; i < s.nd; ++i ) r.push_back( a.nd + b.nd + ( second ? a.nd : 0 ) + i ); for( unsigned i = 0; i < s.n1; ++i ) r.push_back( 2*( a.nd + b.nd ) + ( second ? a.n1 : 0 ) + i ); return r; }
static Vec take( const Vec& x, const std::vector<unsigned>& p ) { Vec r( p.size() ); for( size_t i = 0; i < p.size(); ++i ) r[i] = x[p[i]]; return r; }
static void put( Vec& x, const std::vector<unsigned>& p, const Vec& y ) { for( size_t i = 0; i < p.size(); ++i ) x[p[i]] = y[i]; }
static Sys join( const Sys& a, const Sys& b )
{
    Sys r; r.nd = a.nd + b.nd; r.n1 = a.n1 + b.n1; auto pa = places( a, b, false ), pb = places( a, b, true ); r.t = a.t; r.x.resize( r.n() ); put( r.x, pa, a.x ); put( r.x, pb, b.x );
    r.f = [=]( double t, const Vec& x ) { Vec d( r.nd*2 + r.n1 ); put( d, pa, a.f( t, take( x, pa ) ) ); put( d, pb, b.f( t, take( x, pb ) ) ); return d; }; return r;
}
#define SAME_COURSE( A, B, what ) EXPECT( ( A ).p.size() == ( B ).p.size() && ( A ).fail == ( B ).fail, "course", what << ": " << ( A ).p.size() << " attempts" << ( ( A ).fail.empty() ? "" : ", then " + ( A ).fail ) << "; as posed otherwise " << ( B ).p.size() << ( ( B ).fail.empty() ? "" : ", then " + ( B ).fail ) )

PBT( units, 14000, 250000, "random smooth systems with and without events under every solver with and without step size control: the same run in other units of state and time (powers of two, tolerance in the same units), with the variables in another order and from another origin of time (implicit solvers: unit and origin of time, first order variables); oracle: the same attempts, sizes, errors, events and states bit by bit (times up to rounding if the origin moves); non-trivial: three accepted steps" )
{
    bool ev = c.chance( 1, 3 ); auto w = genWay( c, c.chance( 1, 3 ), -1, ev ); bool move = c.chance( 1, 3 ); auto s = genSmooth( c, 5, 2, false, move ); Sys a = make( c, s ); unsigned n = a.n(); if( w.jac ) { a.nd = 0; a.n1 = n; } int ku = c.range( -6, 6 ), kt = w.control && a.nd ? 0 : c.range( -4, 4 ); if( c.chance( 1, 3 ) ) ku = c.range( -400, 400 ); if( ( !w.control || !a.nd ) && c.chance( 1, 3 ) ) kt = c.flip() ? c.range( -30, 30 ) : c.range( -200, 200 );
    if( w.jac ) ku = 0; double shift = move ? c.real( -50, 50 ) : 0; if( move && a.t != 0 ) a.t = c.range( -2, 2 );
    if( ev ) { unsigned i = c.range( 0, n - 1 ), j = c.range( 0, n - 1 ); double lev = c.num( 1 ), fac = -c.real( .2, 1 ), back = c.flip(); unsigned fl = c.range( 1, 3 ); fl = fl == 1 ? Rhs::PlusMinus : fl == 2 ? Rhs::MinusPlus : Rhs::BothDirections; a.flags = { fl }; a.zf = [i,lev]( double, const Vec& x ) { return Vec{ x[i] - lev }; }; a.sw = [j,fac,back]( Vec& x, const int *tr ) { if( back && tr[0] ) x[j] *= fac; }; }
    std::vector<unsigned> pu = std::vector<unsigned>( a.nd ), pz( a.n1 ), per; { auto q = c.perm( a.nd ); for( unsigned i = 0; i < a.nd; ++i ) per.push_back( q[i] ); for( unsigned i = 0; i < a.nd; ++i ) per.push_back( a.nd + q[i] ); auto z = c.perm( a.n1 ); for( unsigned i = 0; i < a.n1; ++i ) per.push_back( 2*a.nd + z[i] ); if( w.jac ) for( unsigned i = 0; i < n; ++i ) per[i] = i; }
    Vec D( n ); for( unsigned i = 0; i < n; ++i ) D[i] = std::ldexp( 1., ku + ( w.control ? 0 : 0 ) ); double ts = std::ldexp( 1., kt ); for( unsigned i = a.nd; i < 2*a.nd; ++i ) D[i] /= ts; if( !w.control && !w.jac && c.flip() ) { for( unsigned i = 0; i < a.nd; ++i ) { double q = std::ldexp( 1., c.range( -3, 3 ) ); D[i] *= q; D[a.nd+i] *= q; } for( unsigned i = 2*a.nd; i < n; ++i ) D[i] *= std::ldexp( 1., c.range( -3, 3 ) ); }
    Sys b = a; b.t = a.t*ts + shift; double t0 = a.t; auto fwd = [=]( const Vec& x ) { Vec y( n ); for( unsigned i = 0; i < n; ++i ) y[i] = x[per[i]]*D[per[i]]; return y; }; auto back = [=]( const Vec& y ) { Vec x( n ); for( unsigned i = 0; i < n; ++i ) x[per[i]] = y[i]/D[per[i]]; return x; };
    b.x = fwd( a.x ); b.f = [=]( double t, const Vec& y ) { Vec d = a.f( move ? t0 : t/ts, back( y ) ); for( auto& v : d ) v /= ts; return fwd( d ); }; Sys a2 = a; if( move ) a2.f = [=]( double, const Vec& x ) { return a.f( t0, x ); };
    if( ev ) { double zs = std::ldexp( 1., c.flip() ? c.range( -5, 5 ) : c.range( -300, 300 ) ); b.zf = [=]( double t, const Vec& y ) { Vec z = a.zf( t, back( y ) ); z[0] *= zs; return z; }; b.sw = [=]( Vec& y, const int *tr ) { Vec x = back( y ); a.sw( x, tr ); y = fwd( x ); }; }
    int steps = c.range( 1, 12 ); c.log << w.text << " " << s.str() << " from t=" << a.t << " " << str( a.x ) << " unit of time 2^" << kt << " shift " << shift << " scale " << str( D ) << " order"; for( unsigned v : per ) c.log << " " << v; if( ev ) c.log << " events";
    Run A = run( w, a2, steps ), B = run( w, b, steps, ts, ku, HUGE_VAL ); if( A.fail == "end" || B.fail == "end" ) c.discard(); SAME_COURSE( A, B, "run" );
    for( size_t k = 0; k < A.p.size(); ++k ) { auto &p = A.p[k], &q = B.p[k]; EXPECT( p.acc == q.acc && p.tr == q.tr && p.izf == q.izf, "course", "attempt " << k << " ends otherwise" ); EXPECT( p.h*ts == q.h, "step", "attempt " << k << " of size " << p.h << "; in other units " << q.h/ts ); EXPECT( p.err*std::ldexp( 1., ku ) == q.err || std::isnan( p.err ), "error", "error of attempt " << k << " " << p.err << "; in other units " << q.err/std::ldexp( 1., ku ) ); Vec y = fwd( p.x ); EXPECT( sameV( y, q.x ), "state", "state after attempt " << k << " " << str( p.x ) << "; as posed otherwise " << str( back( q.x ) ) ); if( shift == 0 ) EXPECT( p.t*ts == q.t, "time", "time after attempt " << k << " " << p.t << "; in other units " << q.t/ts ); else EXPECT( close( ( p.t )*ts + shift, q.t, 100 + std::fabs( q.t ), 1e-12 ), "time", "time after attempt " << k << " " << p.t << "; from another origin " << q.t - shift ); }
    c.nontrivial( A.accepted >= 3 ); c.label( w.id ); c.label( "events", A.events > 0 ); c.label( "rejections", A.rejected > 0 ); c.label( "shifted", move );
}

PBT( parts, 12000, 200000, "two random systems not coupled to each other, integrated together and one by one with the same steps by every solver; a constant variable joined to a system under step size control; second order variables declared as pairs of first order ones; oracle: the same states, bit by bit for explicit solvers, within the accuracy of the numerical Jacobian for the others; non-trivial: three accepted steps" )
{
    int kind = c.range( 0, 2 ); auto w = genWay( c, true, kind == 0 ? 0 : -1 ); auto s = genSmooth( c, 4, 2 ); if( kind == 2 && !s.nd ) { s = Smooth(); s.nd = 1; s.n1 = 0; s.A = { { 0, 0 }, { c.num( 2 ), c.num( 2 ) } }; s.w = { 0, c.num( 2 ) }; s.u = s.om = s.k = Vec{ 0, 0 }; s.p = { 0, 0 }; s.g = { 0, 0 }; } Sys a = make( c, s ), j; int steps = c.range( 1, 10 ); std::vector<unsigned> pa, pb; Run A, B, J; double eps = w.jac ? 1e-5 : 0; c.log << w.text << " " << s.str() << " from t=" << a.t << " " << str( a.x ) << " steps " << steps; c.label( w.id );
    if( w.jac && w.control ) eps = 1e-4; if( !w.jac && kind == 2 ) eps = w.control ? 1e-9 : 1e-12;
    if( kind < 2 ) {
        Sys b; Smooth s2; if( kind == 0 ) { s2 = genSmooth( c, 4, 2 ); b = make( c, s2 ); c.log << " with " << s2.str() << " from " << str( b.x ); } else { bool so = c.flip(); b.nd = so; b.n1 = !so; b.x = so ? Vec{ c.num( 2 ), 0 } : Vec{ c.num( 2 ) }; b.f = []( double, const Vec& x ) { return Vec( x.size(), 0. ); }; if( w.control ) b.x[0] = 0;     // an error of rounding size would let the step grow that an error of zero does not
        c.log << " with constant " << str( b.x ); } b.t = a.t;
        bool first = c.flip(); if( first ) { j = join( a, b ); pa = places( a, b, false ); pb = places( a, b, true ); } else { j = join( b, a ); pa = places( b, a, true ); pb = places( b, a, false ); }
        A = run( w, a, steps ); if( kind == 0 ) B = run( w, b, steps ); J = run( w, j, steps ); if( kind == 0 && B.fail == "end" ) c.discard(); if( kind == 1 && J.fail.empty() ) for( auto& p : J.p ) EXPECT( close( take( p.x, pb )[0], b.x[0], 3, w.jac ? 1e-9 : 1e-13 ), "constant", "a variable with zero derivative changes from " << b.x[0] << " to " << take( p.x, pb )[0] );
    } else { j = a; j.nd = 0; j.n1 = a.n(); for( unsigned i = 0; i < a.n(); ++i ) pa.push_back( i ); A = run( w, a, steps ); J = run( w, j, steps ); c.log << " declared as first order"; }
    if( A.fail == "end" || J.fail == "end" ) c.discard();
    if( w.jac && ( !A.fail.empty() || !J.fail.empty() || !B.fail.empty() ) ) c.discard(); 
    if( eps == 0 ) { SAME_COURSE( A, J, "run" ); for( size_t k = 0; k < A.p.size(); ++k ) { EXPECT( A.p[k].t == J.p[k].t && A.p[k].h == J.p[k].h && A.p[k].acc == J.p[k].acc, "step", "attempt " << k << " differs" ); EXPECT( sameV( A.p[k].x, take( J.p[k].x, pa ) ), "state", "attempt " << k << ": " << str( A.p[k].x ) << ", together " << str( take( J.p[k].x, pa ) ) ); if( kind == 0 ) EXPECT( sameV( B.p[k].x, take( J.p[k].x, pb ) ), "state", "attempt " << k << ": second part " << str( B.p[k].x ) << ", together " << str( take( J.p[k].x, pb ) ) ); } }
    else { size_t m = std::min( A.p.size(), J.p.size() ); for( size_t k = 0; k < m; ++k ) { if( A.p[k].acc != J.p[k].acc || ( w.control && !close( A.p[k].h, J.p[k].h, A.p[k].h, 1e-3 ) ) ) break; double sc = 1 + norm( A.p[k].x ) + norm( J.p[k].x ); Vec y = take( J.p[k].x, pa ); EXPECT( dist( A.p[k].x, y ) <= eps*sc*( 1 + k ), "state", "attempt " << k << ": " << str( A.p[k].x ) << ", posed otherwise " << str( y ) ); if( kind == 0 ) EXPECT( k < B.p.size() && dist( B.p[k].x, take( J.p[k].x, pb ) ) <= eps*sc*( 1 + k ), "state", "attempt " << k << ": second part " << str( B.p[k].x ) << ", together " << str( take( J.p[k].x, pb ) ) ); } }
    c.nontrivial( A.accepted >= 3 ); c.label( kind == 0 ? "two systems" : kind == 1 ? "constant" : "declaration" ); c.label( "control", w.control );
}

PBT( coordinates, 12000, 200000, "every solver with fixed step: random smooth systems in other coordinates (random well conditioned linear transformation), time made a variable (explicit solvers), superposition of solutions of linear systems, restart of explicit solvers at every step; oracle: the same solution in the original coordinates within rounding, or within the accuracy of the numerical Jacobian; non-trivial: two steps and two variables" )
{
    int kind = c.range( 0, 3 ); auto w = genWay( c, kind == 0 || kind == 2, 0 ); auto s = genSmooth( c, 4, 2, kind == 2 ); Sys a = make( c, s ); unsigned n = a.n(); int steps = c.range( 1, 8 ); c.log << w.text << " " << s.str() << " from t=" << a.t << " " << str( a.x ) << " steps " << steps; c.label( w.id ); Run A, B; double eps = w.jac ? 2e-5 : 1e-10;
    if( kind == 0 ) {
        a.n1 = n; a.nd = 0; std::vector<Vec> M( n, Vec( n, 0. ) ), I = M; for( unsigned i = 0; i < n; ++i ) M[i][i] = I[i][i] = 1; int k = c.range( 1, 4 ); for( int q = 0; q < k && n > 1; ++q ) { unsigned i = c.range( 0, n - 1 ), l = ( i + 1 + c.range( 0, n - 2 ) )%n; double v = c.real( -1, 1 ); for( unsigned r = 0; r < n; ++r ) M[i][r] += v*M[l][r]; for( unsigned r = 0; r < n; ++r ) I[r][l] -= v*I[r][i]; }
        auto mul = []( const std::vector<Vec>& M, const Vec& x ) { Vec y( x.size(), 0. ); for( size_t i = 0; i < y.size(); ++i ) for( size_t j = 0; j < y.size(); ++j ) y[i] += M[i][j]*x[j]; return y; };
        Sys b = a; b.x = mul( M, a.x ); b.f = [=]( double t, const Vec& y ) { return mul( M, a.f( t, mul( I, y ) ) ); }; A = run( w, a, steps ); B = run( w, b, steps ); for( auto& p : B.p ) p.x = mul( I, p.x ); eps *= 10; c.log << " other coordinates";
    } else if( kind == 1 ) {
        Sys b = a; b.n1 = a.n1 + 1; b.x.push_back( a.t ); b.t = c.num( 2 ); b.f = [=]( double, const Vec& y ) { Vec x( y.begin(), y.end() - 1 ); Vec d = a.f( y.back(), x ); d.push_back( 1 ); return d; }; double t0 = b.t; A = run( w, a, steps ); B = run( w, b, steps ); for( auto& p : B.p ) { EXPECT( close( p.x.back() - a.t, p.t - t0, 5, 1e-12 ), "time", "variable of time " << p.x.back() << " after " << p.t - t0 ); p.x.pop_back(); } eps *= 10; c.log << " time as a variable";
    } else if( kind == 2 ) {
        Sys b = a, d = a; for( auto& v : b.x ) v = c.num( 2 ); double q = c.real( -1, 2 ); for( unsigned i = 0; i < n; ++i ) d.x[i] = q*a.x[i] + ( 1 - q )*b.x[i]; A = run( w, d, steps ); Run P = run( w, a, steps ), Q = run( w, b, steps ); B = Q; if( !P.fail.empty() || !Q.fail.empty() ) c.discard(); for( size_t k = 0; k < B.p.size(); ++k ) for( unsigned i = 0; i < n; ++i ) B.p[k].x[i] = q*P.p[k].x[i] + ( 1 - q )*Q.p[k].x[i]; eps *= 10; c.log << " superposition " << q << " with " << str( b.x );
    } else { if( w.id == "gragg" ) c.discard(); // two-step method
        A = run( w, a, steps ); if( A.fail.empty() ) { Sys b = a; for( int k = 0; k < steps; ++k ) { Run o = run( w, b, 1 ); B.p.push_back( o.p.back() ); b.t = o.p.back().t; b.x = o.p.back().x; } } else B = A; eps = 1e-11; c.log << " restarted"; }
    if( w.jac && ( !A.fail.empty() || !B.fail.empty() ) ) c.discard(); if( A.fail == "end" || B.fail == "end" ) c.discard(); SAME_COURSE( A, B, "run" );
    double sc = 1; for( size_t k = 0; k < A.p.size(); ++k ) { sc = std::max( { sc, norm( A.p[k].x ), norm( B.p[k].x ) } ); EXPECT( dist( A.p[k].x, B.p[k].x ) <= eps*sc*( 1 + k ), "state", "step " << k << ": " << str( A.p[k].x ) << ", posed otherwise " << str( B.p[k].x ) << ", difference " << dist( A.p[k].x, B.p[k].x ) ); }
    c.nontrivial( A.accepted >= 2 && n >= 2 ); c.label( kind == 0 ? "coordinates" : kind == 1 ? "time" : kind == 2 ? "superposition" : "restart" );
}

PBT( invariants, 8000, 150000, "random systems with a linear invariant (a linear function of the state with zero derivative) under every solver, fixed and controlled steps; oracle: the function keeps its value within rounding (within the accuracy of the Jacobian for implicit methods); non-trivial: three accepted steps" )
{
    auto w = genWay( c, true ); auto s = genSmooth( c, 5, 2 ); Sys a = make( c, s ); unsigned n = a.n(); a.nd = 0; a.n1 = n; Vec q( n ); for( auto& v : q ) v = c.nz( 2 ); unsigned k = c.range( 0, n - 1 ); q[k] = c.flip() ? 1 : -1; if( n == 1 ) c.discard(); int steps = c.range( 2, 12 );
    a.f = [=]( double t, const Vec& x ) { Vec d = s.f( t, x ); double v = 0; for( unsigned i = 0; i < n; ++i ) if( i != k ) v += q[i]*d[i]; d[k] = -v/q[k]; return d; }; c.log << w.text << " " << s.str() << " invariant " << str( q ) << " by " << k << " from t=" << a.t << " " << str( a.x ) << " steps " << steps; auto I = [&]( const Vec& x ) { double v = 0; for( unsigned i = 0; i < n; ++i ) v += q[i]*x[i]; return v; };
    Run A = run( w, a, steps ); if( !A.fail.empty() ) c.discard(); double v = I( a.x ), sc = 1 + norm( a.x ); long m = 0; for( auto& p : A.p ) { sc = std::max( sc, norm( p.x ) ); ++m; EXPECT( close( I( p.x ), v, 10*sc*m, w.jac ? 1e-6 : 1e-12 ), "invariant", "attempt " << m << ": value " << I( p.x ) << ", initially " << v ); }
    c.nontrivial( A.accepted >= 3 ); c.label( w.id ); c.label( "control", w.control );
}
