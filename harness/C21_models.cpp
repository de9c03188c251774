// C21 - the test models are the systems they document, and runs of them obey their physics
#include "params.h"

static double rel( double a, double b ) { return std::fabs( a - b )/std::max( { 1e-300, std::fabs( a ), std::fabs( b ) } ); }
struct Model { std::string name; Params p; unsigned nd = 0, n1 = 0; Fn f; };     // parameters and formulas of the documentation
static double P( double v, Params& p, const char *n ) { p[n] = v; return p[n].value<double>(); }
static Model genModel( pbt::Ctx& c, int kind = -1, bool mild = false )
{
    Model m; auto pos = [&]( double d, double lo, double hi, const char *n ) { double v = d; if( c.chance( 2, 3 ) || mild ) v = P( c.logreal( lo, hi ), m.p, n ); return v; }; auto any = [&]( double d, double s, const char *n ) { double v = d; if( c.chance( 2, 3 ) || mild ) v = P( c.num( s ), m.p, n ); return v; };
    switch( kind < 0 ? c.range( 0, 4 ) : kind ) {
    case 0: { m.name = "oscillator"; m.nd = 1; double k = pos( 1e3, .1, mild ? 30 : 1e4, "c" ), F = any( 100, mild ? 4 : 200, "f" ); m.f = [k,F]( double, const Vec& x ) { return Vec{ x[1], F - k*x[0] }; }; break; }
    case 1: { m.name = "coupled_nl_osc"; unsigned n = 10; if( c.chance( 2, 3 ) || mild ) { n = c.range( 1, mild ? 4 : 14 ); m.p["n"] = n; } m.nd = n; double a = pos( 1e3, .1, mild ? 10 : 1e4, "c0" ), b = pos( 1e3, .1, mild ? 5 : 1e4, "c2" ), F = any( 100, mild ? 3 : 200, "f" );
        m.f = [n,a,b,F]( double, const Vec& x ) { Vec r( 2*n, 0. ); for( unsigned i = 0; i < n; ++i ) r[i] = x[n+i]; for( unsigned i = 0; i < n; ++i ) { double d = x[i] - ( i ? x[i-1] : 0 ), s = a*d + b*d*d*d; r[n+i] -= s; if( i ) r[n+i-1] += s; } if( n ) r[2*n-1] += F; return r; }; break; }
    case 2: { m.name = "stiff_1d"; m.n1 = 1; double a = pos( 50, .1, mild ? 20 : 1e6, "a" ); m.f = [a]( double t, const Vec& x ) { return Vec{ -a*( x[0] - std::cos( t ) ) }; }; break; }
    case 3: { m.name = "sliding_point"; m.nd = 2; int fr = 0; if( c.chance( 2, 3 ) ) { fr = c.range( 0, 2 ); m.p["friction"] = fr == 0 ? "atan" : fr == 1 ? "tabular" : "linear"; } double M = pos( 1, .1, 10, "mass" ), f0 = pos( 1, .01, mild ? 3 : 100, "f0" ), v0 = pos( 1, .05, 10, "v0" ), F1 = any( 10, 20, "F1" ), F2 = any( 10, 20, "F2" ), om = pos( 100, .1, mild ? 5 : 200, "omega" );
        m.f = [=]( double t, const Vec& x ) { double v = std::sqrt( x[2]*x[2] + x[3]*x[3] ), R = fr == 0 ? f0*std::atan( v/v0 )*2/3.14159265358979323846 : fr == 1 ? f0*std::min( 1., v/v0 ) : f0*v/v0, q = v > 0 ? R/v : 0; return Vec{ x[2], x[3], ( F1 - q*x[2] )/M, ( F2*std::sin( om*t ) - q*x[3] )/M }; }; break; }
    default: { m.name = "bouncing_ball"; m.nd = 1; double g = pos( 9.8, .1, 30, "gravity_acceleration" ); m.f = [g]( double, const Vec& x ) { return Vec{ x[1], -g }; }; }
    }
    return m;
}
static std::string text( const Params& p ) { return show( tree( p ) ); }
PBT( formulas, 20000, 200000, "models with random parameters (defaults for those not set), states (zero speed included) and times; oracle: the documented equations; evaluation does not depend on the previous content of the result; non-trivial: at least one parameter set" )
{
    auto m = genModel( c ); auto r = Factory<Rhs>::newInstance( m.name ); if( c.flip() ) r->setParameters( m.p ); else for( auto& e : m.p ) { Params one; one[e.first] = e.second; r->setParameters( one ); } unsigned n = 2*m.nd + m.n1; EXPECT( r->secondOrderVarCount() == m.nd && r->firstOrderVarCount() == m.n1 && r->varCount() == n, "size", m.name << " has " << r->secondOrderVarCount() << "+" << r->firstOrderVarCount() << " variables, expected " << m.nd << "+" << m.n1 );
    double s = c.pick( std::vector<double>{ 0, 1, 5 } ), t = c.num( 20 ); Vec x( n ); for( auto& v : x ) v = c.num( s + 1e-9 ); if( c.chance( 1, 5 ) ) for( unsigned i = m.nd; i < n; ++i ) x[i] = 0; c.log << m.name << text( m.p ) << " t=" << t << " " << str( x ); V dst = toV( c.nums( c.range( 0, 5 ) ) ), xv = toV( x ); int pre = 0, post = 0; r->odeRhsPreObservers.add( [&]( double tt, const V& y, const Rhs *q ) { pre += tt == t && sameV( toVec( y ), x ) && q == r.get(); } ); r->odeRhsPostObservers.add( [&]( double tt, const V& y, const V& d, const Rhs *q ) { post += tt == t && sameV( toVec( y ), x ) && &d == &dst && q == r.get(); } );
    r->rhs( dst, t, xv ); Vec y = toVec( dst ), w = m.f( t, x ); EXPECT( y.size() == n, "size", "derivative of size " << y.size() ); Vec big( n, 1. ); for( auto& v : big ) v = 10; double sc = 0; { Vec z( x ); for( auto& v : z ) v = std::fabs( v ); for( double v : w ) sc = std::max( sc, std::fabs( v ) ); } EXPECT( pre == 1 && post == 1, "observers", "observers of the evaluation called " << pre << " and " << post << " times with the arguments" ); EXPECT( sameV( toVec( xv ), x ), "input", "the state is changed" );
    double mag = sc; for( unsigned i = 0; i < n; ++i ) { Vec z( n, 0. ); mag = std::max( mag, norm( m.f( 0, x ) ) ); } { auto k = [&]( const char *q, double d ) { auto it = m.p.find( q ); return it == m.p.end() ? d : std::fabs( it->second.value<double>() ); }; double xm = norm( x ); if( m.name == "oscillator" ) mag = std::max( mag, k( "f", 100 ) + k( "c", 1e3 )*xm ); if( m.name == "coupled_nl_osc" ) mag = std::max( mag, k( "f", 100 ) + 4*k( "c0", 1e3 )*xm + 16*k( "c2", 1e3 )*xm*xm*xm ); if( m.name == "stiff_1d" ) mag = std::max( mag, k( "a", 50 )*( xm + 1 ) ); if( m.name == "sliding_point" ) mag = std::max( mag, ( k( "F1", 10 ) + k( "F2", 10 ) + k( "f0", 1 )*( 1 + xm/k( "v0", 1 ) ) )/k( "mass", 1 ) ); }
    for( unsigned i = 0; i < n; ++i ) EXPECT( i < m.nd ? y[i] == x[m.nd+i] : close( y[i], w[i], mag, 1e-13 ), "formula", m.name << ": derivative " << str( y ) << ", expected " << str( w ) ); if( m.name == "bouncing_ball" ) { EXPECT( r->zeroFuncCount() == 1 && r->zeroFuncFlags().size() == 1 && r->zeroFuncFlags()[0] == Rhs::PlusMinus, "event", "events of the ball" ); V z; r->zeroFunctions( z, t, xv ); EXPECT( z.size() == 1 && z[0] == x[0], "event", "zero function of the ball" ); } else EXPECT( r->zeroFuncCount() == 0 && r->zeroFuncFlags().empty(), "event", m.name << " has events" );
    c.nontrivial( !m.p.empty() ); c.label( m.name );
}

static const std::vector<std::string> controlled{ "dopri_45", "dopri_56", "dopri_78", "rosenbrock_sw2_4", "extrapolator" };
static Params accurate( const std::string& id, double tol, double h ) { Params p; p["h_init"] = h; Params k; k["tolerance"] = tol; p["stepsizectl"] = PV( "simple", k ); if( id == "extrapolator" ) { p["step_sequence"] = "harmonic"; p["reference_solver"] = "gragg"; p["max_stages"] = 5; } return p; }
PBT( physics, 2500, 40000, "models with random mild parameters integrated over a random time by every solver with step size control and random tolerance; oracle: closed-form solutions (oscillator, relaxation, linear friction), an independent fine integration for the others, conservation of energy, balance of momentum of the chain; the error is of the order of the tolerance times the number of steps; non-trivial: five steps and more" )
{
    std::string id = c.pick( controlled ); auto m = genModel( c, c.range( 0, 3 ), true ); double tol = c.logreal( id == "rosenbrock_sw2_4" ? 1e-6 : 1e-9, 1e-4 ), T = c.real( .2, 2 ), t0 = c.real( -2, 2 ); Cfg cfg; cfg.setValue( "rhs", PV( m.name, m.p ) ); cfg.setValue( "solver", PV( id, accurate( id, tol, .01 ) ) ); cfg.setValue( "time", T ); unsigned n = 2*m.nd + m.n1; Vec x0( n ); for( auto& v : x0 ) v = c.real( -1, 1 ); c.log << id << " tolerance " << tol << " " << m.name << text( m.p ) << " from " << t0 << " " << str( x0 ) << " for " << T;
    auto sc = cfg.apply( std::set<unsigned>(), t0, toV( x0 ) ); auto s = sc.solver(); long steps = 0; s->odeSolverPostObservers.add( [&]( const PostArg& a ) { steps += a.stepAccepted(); if( steps > 20000 ) throw std::runtime_error( "too many steps" ); } ); solveOde( &cfg, &sc ); double t = s->initialTime(); Vec x = toVec( s->initialState() ), w; auto P = [&]( const char *q ) { return m.p.at( q ).value<double>(); };
    if( m.name == "oscillator" ) { double k = P( "c" ), F = P( "f" ), o = std::sqrt( k ), d = t - t0, A = x0[0] - F/k, B = x0[1]/o; w = { F/k + A*std::cos( o*d ) + B*std::sin( o*d ), o*( B*std::cos( o*d ) - A*std::sin( o*d ) ) }; }
    else if( m.name == "stiff_1d" ) { double a = P( "a" ); auto part = [a]( double s ) { return a*( a*std::cos( s ) + std::sin( s ) )/( 1 + a*a ); }; w = { part( t ) + ( x0[0] - part( t0 ) )*std::exp( -a*( t - t0 ) ) }; }
    else w = refSolve( m.f, t0, x0, t - t0, 4000 );
    bool kink = m.name == "sliding_point" && m.p.count( "friction" ) && m.p.at( "friction" ).value<std::string>() == "tabular"; double bound = 300*tol*( 5 + steps )*( kink ? 20 : 1 ) + 1e-7; EXPECT( t >= t0 + T && dist( x, w ) <= bound, "solution", m.name << " at t=" << t << " after " << steps << " steps: " << str( x ) << ", expected " << str( w ) << ", difference " << dist( x, w ) << ", tolerance " << tol );
    if( m.name == "oscillator" || m.name == "coupled_nl_osc" ) { auto E = [&]( const Vec& y ) { if( m.name == "oscillator" ) return y[1]*y[1]/2 + P( "c" )*y[0]*y[0]/2 - P( "f" )*y[0]; double e = -P( "f" )*y[m.nd-1]; for( unsigned i = 0; i < m.nd; ++i ) { double d = y[i] - ( i ? y[i-1] : 0 ); e += y[m.nd+i]*y[m.nd+i]/2 + P( "c0" )*d*d/2 + P( "c2" )*d*d*d*d/4; } return e; }; double e0 = E( x0 ), e1 = E( x ); EXPECT( close( e0, e1, 50*( 1 + norm( x ) )*( 1 + norm( x ) )*( 1 + norm( x ) ), 10*bound ), "energy", "energy " << e0 << " at the beginning, " << e1 << " at the end" ); }
    c.nontrivial( steps >= 5 ); c.label( m.name ); c.label( id );
}

PBT( bouncing, 4000, 40000, "the bouncing ball with random parameters, heights, speeds and step sizes under every solver; oracle: ballistic flight between impacts, speed after an impact is the recovery factor times the speed before it, sticking below the stick speed or at an impact while rising; the ball is never below the plane, never gains energy, and rests for ever once it sticks; non-trivial: two impacts" )
{
    std::string id = c.pick( std::vector<std::string>{ "rk4", "dopri_45", "dopri_56", "dopri_78", "rosenbrock_sw2_4", "extrapolator", "euler", "i_euler", "rosenbrock_w1", "gragg" } ); bool exact = id == "rk4" || id.compare( 0, 5, "dopri" ) == 0 || id == "rosenbrock_sw2_4" || id == "extrapolator"; Params p, mp; double h = c.logreal( 1e-3, .2 ); p["h_init"] = h; if( id == "extrapolator" ) { p["step_sequence"] = "harmonic"; p["reference_solver"] = "gragg"; p["max_stages"] = 3; } p["eventctl"] = "linear"; if( id == "i_euler" ) { Params e; e["abs_tol"] = 1e-10; e["rel_tol"] = 1e-3; e["rel_max_threshold"] = 0.; Params n; n["err"] = PV( "simple", e ); p["algsolver"] = PV( "newton", n ); }
    double g = P( c.logreal( 1, 20 ), mp, "gravity_acceleration" ), q = P( c.real( .05, 1 ), mp, "recovery_factor" ), st = P( c.logreal( 1e-5, .5 ), mp, "stick_speed" ); auto r = Factory<Rhs>::newInstance( "bouncing_ball" ); r->setParameters( mp ); auto s = makeSolver( id, p ); s->setOdeRhs( r ); Vec x{ c.logreal( .001, 2 ), c.real( -3, 3 ) }; double t = 0; s->setInitialState( 0, toV( x ) ); c.log << id << " h=" << h << " " << text( mp ) << " from " << str( x );
    bool tr = false, acc = false; s->odeSolverPostObservers.add( [&]( const PostArg& a ) { tr = a.stepTruncated(); acc = a.stepAccepted(); } ); bool stuck = false; int impacts = 0, again = 0; double E = x[1]*x[1]/2 + g*x[0];
    for( int k = 0; k < 150; ++k ) {
        s->doStep(); double t1 = s->initialTime(); Vec y = toVec( s->initialState() ); double d = t1 - t, v = x[1] - g*d, sc = 1 + g*d + std::fabs( x[1] ); EXPECT( t1 > t || tr || id == "i_euler", "time", "time " << t1 << " after " << t ); EXPECT( y[0] >= -1e-9*sc, "below", "step " << k << ": the ball is at " << y[0] << ", speed " << y[1] << ", before " << str( x ) );
        if( stuck ) { again += tr; EXPECT( y[0] == 0 && y[1] == 0 && again < 2, "rest", "the ball that sticks moves: " << str( y ) ); } else if( exact || id == "gragg" ) {
            if( tr ) { ++impacts; bool sticks = v >= 0 || std::fabs( v ) < st; bool edge = std::fabs( v ) < 1e-9*sc || std::fabs( std::fabs( v ) - st ) < 1e-9*sc; bool is = y[0] == 0 && y[1] == 0; if( !edge ) EXPECT( is == sticks, "stick", "impact at speed " << v << " (stick speed " << st << ") gives " << str( y ) ); if( !is ) EXPECT( close( y[0], 0, sc, 1e-9 ) && close( y[1], -q*v, sc, 1e-9 ), "impact", "impact at speed " << v << " and recovery factor " << q << " gives " << str( y ) ); stuck = is; }
            else EXPECT( close( y[0], x[0] + x[1]*d - g*d*d/2, sc, 1e-9 ) && close( y[1], v, sc, 1e-9 ), "flight", "flight of " << d << " from " << str( x ) << " to " << str( y ) << ", expected " << ( x[0] + x[1]*d - g*d*d/2 ) << " " << v );
            double e = y[1]*y[1]/2 + g*y[0]; EXPECT( e <= E + 1e-8*sc*sc, "energy", "energy grows from " << E << " to " << e ); E = e;
        } else { if( tr ) { ++impacts; stuck = y[0] == 0 && y[1] == 0; EXPECT( stuck || y[1] >= 0, "impact", "falling after an impact: " << str( y ) ); } }
        x = y; t = t1;
    }
    c.nontrivial( impacts >= 2 ); c.label( "comes to rest", stuck ); c.label( id );
}
