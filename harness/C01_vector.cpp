// C01 - dense vector algebra against a plain std::vector<double> model, as a state machine
#include "pbt.h"
#include "ode_num_int/VectorTemplate.h"
#include <sstream>
using namespace ctm::math;
typedef VectorTemplate< VectorData<double> > V;
typedef std::vector<double> M;
using pbt::close;

static V mk( const M& m ) { V v( m.size() ); for( size_t i = 0; i < m.size(); ++i ) v[i] = m[i]; return v; }
template< class VV > static M un( const VV& v ) { M m; for( size_t i = 0; i < v.size(); ++i ) m.push_back( v[i] ); return m; }
static const double R = 1e-14;

template< class VV > static void same( pbt::Ctx& c, const char *what, const VV& v, const M& m, double scale = 0 )
{
    EXPECT( v.size() == m.size(), what, "size " << v.size() << ", expected " << m.size() );
    double s = scale; for( double x : m ) s = std::max( s, std::fabs( x ) );
    for( size_t i = 0; i < m.size(); ++i ) {
        EXPECT( close( v[i], m[i], s, R ), what, "element " << i << " is " << v[i] << ", expected " << m[i] );
        EXPECT( close( v.at( i ), m[i], s, R ), what, "at(" << i << ") is " << v.at( i ) << ", expected " << m[i] );
    }
    size_t i = 0;
    for( auto it = v.begin(); it != v.end(); ++it, ++i ) {
        EXPECT( i < m.size(), what, "iteration goes past the end" );
        EXPECT( close( *it, m[i], s, R ), what, "iteration yields " << *it << " at " << i << ", expected " << m[i] );
    }
    EXPECT( i == m.size(), what, "iteration yields " << i << " elements of " << m.size() );
}

PBT( vector_state_machine, 400000, 8000000,
     "a pool of vectors driven through a random sequence of operations (assignment, arithmetic, views, resize, swap, norms), "
     "compared after every operation with plain arrays; non-trivial: at least 3 operations on a non-empty vector, one of them through a view" )
{
    const int K = 4;
    std::vector<V> v; std::vector<M> m;
    int big = c.chance( 1, 60 ) ? c.range( 10, 200 ) : 0;
    for( int i = 0; i < K; ++i ) { M x = c.nums( big ? big + c.range( 0, 3 ) : c.range( 0, 7 ) ); m.push_back( x ); v.push_back( mk( x ) ); }
    int ops = c.range( 1, 25 ), work = 0, views = 0;
    for( int i = 0; i < K; ++i ) c.log << "v" << i << "=" << pbt::str( m[i] ) << "; ";
    for( int o = 0; o < ops; ++o ) {
        int a = c.range( 0, K-1 ), b = c.range( 0, K-1 ), d = c.range( 0, K-1 );
        int op = c.range( 0, 21 );
        c.log << "op" << op << "(" << a << "," << b << "," << d << ") ";
        auto eqb = [&]() {   // make b the size of a
            if( m[b].size() != m[a].size() ) { v[b].resize( m[a].size() ); m[b].resize( m[a].size(), 0 ); same( c, "resize", v[b], m[b] ); }
        };
        size_t n = m[a].size();
        if( n ) ++work;
        switch( op ) {
            case 0: v[a] = v[b]; m[a] = m[b]; break;
            case 1: { eqb(); V r = v[a] + v[b]; M x = m[a]; for( size_t i = 0; i < n; ++i ) x[i] += m[b][i]; same( c, "sum", r, x ); v[d] = r; m[d] = x; break; }
            case 2: { eqb(); V r = v[a] - v[b]; M x = m[a]; for( size_t i = 0; i < n; ++i ) x[i] -= m[b][i]; same( c, "difference", r, x ); v[d] = r; m[d] = x; break; }
            case 3: { eqb(); v[a] += v[b]; M y = m[b]; for( size_t i = 0; i < n; ++i ) m[a][i] += y[i]; break; }
            case 4: { eqb(); v[a] -= v[b]; M y = m[b]; for( size_t i = 0; i < n; ++i ) m[a][i] -= y[i]; break; }
            case 5: { double s = c.num(); v[a] *= s; for( auto& x : m[a] ) x *= s; break; }
            case 6: { eqb(); double s = c.num(); v[a] += v[b].scaled( s ); for( size_t i = 0; i < n; ++i ) m[a][i] += s*m[b][i]; ++views; break; }
            case 7: { eqb(); double s = c.num(); v[a] -= v[b].scaled( s ); for( size_t i = 0; i < n; ++i ) m[a][i] -= s*m[b][i]; ++views; break; }
            case 8: { double s = c.num(); V r = v[a].scaled( s ); M x = m[a]; for( auto& y : x ) y *= s; same( c, "scaled", r, x );
                      same( c, "scaled-view", v[a].scaled( s ), x ); double t = c.num(); M z = x; for( auto& y : z ) y *= t;
                      same( c, "scaled-scaled", V( v[a].scaled( s ).scaled( t ) ), z, std::fabs( t ) ); if( a != d ) { v[d] = v[a].scaled( s ); m[d] = x; } ++views; break; }
            case 9: { // block of one vector combined with a block of another one, or a disjoint block of the same one
                size_t sz = std::min( n, m[b].size() ); if( !sz ) break;
                size_t len = c.range( 0, (int)sz ), fa = c.range( 0, (int)( n - len ) ), fb = c.range( 0, (int)( m[b].size() - len ) );
                if( a == b && fa != fb && fa < fb + len && fb < fa + len ) break;   // partial overlap: not an element-wise expression
                int k = c.range( 0, 3 ); double s = c.num(); M y = m[b];
                auto blk = v[a].block( fa, len );
                if( k == 0 ) { blk += v[b].block( fb, len ); for( size_t i = 0; i < len; ++i ) m[a][fa+i] += y[fb+i]; }
                else if( k == 1 ) { blk -= v[b].block( fb, len ); for( size_t i = 0; i < len; ++i ) m[a][fa+i] -= y[fb+i]; }
                else if( k == 2 ) { blk = v[b].block( fb, len ); for( size_t i = 0; i < len; ++i ) m[a][fa+i] = y[fb+i]; }
                else if( a != b ) { blk += v[b].block( fb, len ).scaled( s ); for( size_t i = 0; i < len; ++i ) m[a][fa+i] += s*y[fb+i]; }
                ++views; break; }
            case 10: { size_t len = c.range( 0, (int)n ), f = c.range( 0, (int)( n - len ) ); int k = c.range( 0, 2 ); double s = c.num();
                auto blk = v[a].block( f, len );
                if( k == 0 ) { blk.clear(); for( size_t i = 0; i < len; ++i ) m[a][f+i] = 0; }
                else if( k == 1 ) { blk *= s; for( size_t i = 0; i < len; ++i ) m[a][f+i] *= s; }
                else { size_t l2 = c.range( 0, (int)len ), f2 = c.range( 0, (int)( len - l2 ) ); auto b2 = blk.block( f2, l2 );
                       same( c, "nested-block", b2, M( m[a].begin()+f+f2, m[a].begin()+f+f2+l2 ) ); b2 *= s; for( size_t i = 0; i < l2; ++i ) m[a][f+f2+i] *= s; }
                ++views; break; }
            case 11: { size_t len = c.range( 0, (int)n ), f = c.range( 0, (int)( n - len ) ); const V& cv = v[a]; M x( m[a].begin()+f, m[a].begin()+f+len );
                same( c, "const-block", cv.block( f, len ), x ); V r = cv.block( f, len ); same( c, "block-copy", r, x );
                same( c, "block-clone", v[a].block( f, len ).clone(), x );
                auto blk = v[a].block( f, len ); double one = 0, sq = 0, inf = 0; for( double y : x ) { one += std::fabs( y ); sq += y*y; inf = std::max( inf, std::fabs( y ) ); }
                EXPECT( close( blk.oneNorm(), one, one, 1e-13 ), "block-norm", "one-norm of a view " << blk.oneNorm() << " expected " << one );
                EXPECT( close( blk.infNorm(), inf, inf, 1e-13 ), "block-norm", "inf-norm of a view " << blk.infNorm() << " expected " << inf );
                EXPECT( close( blk.euclideanNorm(), std::sqrt( sq ), std::sqrt( sq ), 1e-13 ), "block-norm", "2-norm of a view " << blk.euclideanNorm() << " expected " << std::sqrt( sq ) );
                EXPECT( close( blk.euclideanNormSquare(), sq, sq, 1e-13 ), "block-norm", "squared 2-norm of a view" );
                ++views; if( a != d ) { v[d] = r; m[d] = x; } break; }
            case 12: { eqb(); double s = 0, ab = 0; for( size_t i = 0; i < n; ++i ) { s += m[a][i]*m[b][i]; ab += std::fabs( m[a][i]*m[b][i] ); }
                double r = v[a].dot( v[b] ); EXPECT( close( r, s, ab, 1e-13 ), "dot", "dot product " << r << ", expected " << s );
                if( n ) { size_t len = c.range( 1, (int)n ), f = n - len; double t = 0; for( size_t i = f; i < n; ++i ) t += m[a][i]*m[b][i];
                    double q = v[a].block( f, len ).dot( v[b].block( f, len ) ); EXPECT( close( q, t, ab, 1e-13 ), "dot", "dot product of views " << q << ", expected " << t ); }
                break; }
            case 13: { double one = 0, sq = 0, inf = 0; for( double x : m[a] ) { one += std::fabs( x ); sq += x*x; inf = std::max( inf, std::fabs( x ) ); }
                const V& w = v[a];
                EXPECT( close( w.oneNorm(), one, one, 1e-13 ), "norm", "one-norm " << w.oneNorm() << ", expected " << one );
                EXPECT( w.infNorm() == inf, "norm", "inf-norm " << w.infNorm() << ", expected " << inf );
                EXPECT( close( w.euclideanNormSquare(), sq, sq, 1e-13 ), "norm", "squared 2-norm " << w.euclideanNormSquare() << ", expected " << sq );
                EXPECT( close( w.euclideanNorm(), std::sqrt( sq ), std::sqrt( sq ), 1e-13 ), "norm", "2-norm " << w.euclideanNorm() << ", expected " << std::sqrt( sq ) );
                break; }
            case 14: { size_t k = big && c.flip() ? big + c.range( 0, 40 ) : c.range( 0, 9 ); v[a].resize( k ); m[a].resize( k, 0 ); break; }
            case 15: v[a].clear(); for( auto& x : m[a] ) x = 0; break;
            case 16: if( a != b ) { v[a].swap( v[b] ); m[a].swap( m[b] ); } break;
            case 17: { V r( v[a] ); same( c, "copy", r, m[a] ); r.resize( n + 1 ); r[n] = 42; same( c, "copy-independent", v[a], m[a] );
                       V s = v[a].clone(); same( c, "clone", s, m[a] ); if( n ) { s[0] += 1; s.at( n-1 ) -= 3; } same( c, "clone-independent", v[a], m[a] ); break; }
            case 18: { M x = m[a], y = m[a], z = m[a], w = m[a]; eqb();
                for( size_t i = 0; i < n; ++i ) { x[i] = std::fabs( x[i] ); y[i] = std::sqrt( std::fabs( y[i] ) ); z[i] = std::max( m[a][i], m[b][i] ); }
                same( c, "memberwise-fabs", std::fabs( v[a] ), x ); same( c, "memberwise-sqrt", std::sqrt( std::fabs( v[a] ) ), y );
                same( c, "memberwise-max", std::max( v[a], v[b] ), z );
                M q = m[a]; for( size_t i = 0; i < n; ++i ) q[i] = 2*m[a][i] - m[b][i];
                same( c, "memberwise-binary", vectorMemberwiseBinaryOp( v[a], v[b], []( double p, double r ) { return 2*p - r; } ), q, 16 );
                same( c, "memberwise-unary", vectorMemberwiseUnaryOp( v[a], []( double p ) { return -p; } ), un( v[a].scaled( -1 ) ) );
                break; }
            case 19: { // textual form lists the elements in order; a limit keeps that many at each end
                std::ostringstream e; e << "["; for( size_t i = 0; i < n; ++i ) { if( i ) e << ", "; e << m[a][i]; } e << "]";
                EXPECT( v[a].toString() == e.str(), "to-string", "'" << v[a].toString() << "', expected '" << e.str() << "'" );
                unsigned lim = c.range( 1, 4 ); std::ostringstream f; f << "[";
                for( size_t i = 0; i < n; ++i ) {
                    if( n > 2*lim && i >= lim && i < n - lim ) { if( i == lim ) f << ", ..."; continue; }
                    if( i ) f << ", "; f << m[a][i];
                }
                f << "]";
                EXPECT( v[a].toString( lim ) == f.str(), "to-string", "'" << v[a].toString( lim ) << "', expected '" << f.str() << "'" );
                std::ostringstream g; g << v[a]; EXPECT( g.str() == e.str(), "to-string", "stream output '" << g.str() << "'" );
                break; }
            case 20: { // indexing past the end is rejected, not served
                EXPECT_THROW( v[a][n], "out-of-range", "element " << n << " of a vector of " << n );
                EXPECT_THROW( v[a].at( n + c.range( 0, 3 ) ), "out-of-range", "element beyond a vector of " << n );
                if( n ) { v[a][n-1] = m[a][n-1] = c.num(); }
                break; }
            default: { // writes through iterators of a view
                size_t len = c.range( 0, (int)n ), f = c.range( 0, (int)( n - len ) ); auto blk = v[a].block( f, len ); size_t i = 0;
                for( auto& x : blk ) { x = x*2 + 1; ++i; } EXPECT( i == len, "block-iteration", "a view of " << len << " elements iterates over " << i );
                for( size_t k = 0; k < len; ++k ) m[a][f+k] = m[a][f+k]*2 + 1;
                ++views; break; }
        }
        for( int i = 0; i < K; ++i ) {
            EXPECT( v[i].empty() == m[i].empty(), "empty", "empty() is " << v[i].empty() );
            same( c, "state", v[i], m[i] );
        }
        // keep magnitudes sane
        for( int i = 0; i < K; ++i ) { double s = 0; for( double x : m[i] ) s = std::max( s, std::fabs( x ) ); if( s > 1e100 ) { v[i] *= 1e-100; for( auto& x : m[i] ) x *= 1e-100; } 
            for( size_t k = 0; k < m[i].size(); ++k ) m[i][k] = v[i][k]; }
    }
    c.nontrivial( work >= 3 && views >= 1 );
    c.label( "views>=3", views >= 3 ); c.label( "ops>=10", ops >= 10 );
}

PBT( vector_laws, 200000, 4000000,
     "algebraic laws (triangle inequality, Cauchy-Schwarz, linearity, norm ordering) on random vectors, and not-a-number elements: non-trivial: size >= 2" )
{
    int n = c.size( 0, 12, 200 );
    M x = c.nums( n, 100 ), y = c.nums( n, 100 ); V a = mk( x ), b = mk( y ); double s = c.num();
    c.log << "x=" << pbt::str( x ) << " y=" << pbt::str( y ) << " s=" << s;
    double e = 1e-12;
    EXPECT( ( a + b ).euclideanNorm() <= ( a.euclideanNorm() + b.euclideanNorm() )*( 1 + e ), "triangle", "triangle inequality" );
    EXPECT( ( a + b ).infNorm() <= ( a.infNorm() + b.infNorm() )*( 1 + e ), "triangle", "triangle inequality (inf)" );
    EXPECT( ( a + b ).oneNorm() <= ( a.oneNorm() + b.oneNorm() )*( 1 + e ), "triangle", "triangle inequality (one)" );
    EXPECT( std::fabs( a.dot( b ) ) <= a.euclideanNorm()*b.euclideanNorm()*( 1 + e ) + 1e-300, "cauchy-schwarz", "|a.b| > |a||b|" );
    EXPECT( close( a.dot( b ), b.dot( a ), a.euclideanNorm()*b.euclideanNorm(), e ), "dot-symmetry", "a.b != b.a" );
    EXPECT( close( V( a.scaled( s ) ).infNorm(), std::fabs( s )*a.infNorm(), std::fabs( s )*a.infNorm(), e ), "homogeneity", "|s a| != |s||a|" );
    EXPECT( a.infNorm() <= a.euclideanNorm()*( 1 + e ) && a.euclideanNorm() <= a.oneNorm()*( 1 + e ), "norm-order", "inf <= 2 <= 1 violated" );
    V d = a - b; d += b; same( c, "sub-add", d, x, 200 );
    { int k = c.range( -60, 60 ); double q = std::ldexp( 1., k ); V a2 = a, b2 = b.scaled( q ); a2 *= q; c.log << " scale 2^" << k;    // scaling by a power of two is exact
      EXPECT( a2.infNorm() == q*a.infNorm() && a2.oneNorm() == q*a.oneNorm() && a2.euclideanNorm() == q*a.euclideanNorm() && a2.euclideanNormSquare() == q*q*a.euclideanNormSquare() && a2.dot( b2 ) == q*q*a.dot( b ), "scaling", "norms or product of scaled vectors" );
      V s1 = a2 + b2, s2 = a2 - b2, t1 = a + b, t2 = a - b; for( int i = 0; i < n; ++i ) EXPECT( s1[i] == q*t1[i] && s2[i] == q*t2[i], "scaling", "sum or difference of scaled vectors" ); }
    if( n ) {   // a not-a-number element must not be hidden by a norm
        int k = c.range( 0, n-1 ); V q = a; q[k] = std::numeric_limits<double>::quiet_NaN();
        EXPECT( !( q.infNorm() <= 1e300 ), "nan-norm", "inf-norm of a vector with a NaN element is " << q.infNorm() );
        EXPECT( !( q.oneNorm() <= 1e300 ), "nan-norm", "one-norm of a vector with a NaN element is " << q.oneNorm() );
        EXPECT( !( q.euclideanNorm() <= 1e300 ), "nan-norm", "2-norm of a vector with a NaN element is " << q.euclideanNorm() );
    }
    c.nontrivial( n >= 2 );
}
