// C02 - sparse matrices against a dense model with an explicit pattern, as a state machine
#include "pbt.h"
#include "ode_num_int/SparseMatrixTemplate.h"
#include <map>
#include <set>
#include <sstream>
using namespace ctm::math;
using namespace ctm::math::sparse;
typedef SparseMatrix<double> S;
typedef SparseMatrixTemplate< SparseMatrixFastData<double> > F;
typedef VectorTemplate< VectorData<double> > V;
typedef std::pair<unsigned,unsigned> I;
using pbt::close;

struct M {
    unsigned r = 0, c = 0; std::map<I,double> d;
    double get( unsigned i, unsigned j ) const { auto it = d.find( I( i, j ) ); return it == d.end() ? 0 : it->second; }
    bool has( unsigned i, unsigned j ) const { return d.count( I( i, j ) ) > 0; }
    double big() const { double s = 0; for( auto& x : d ) s = std::max( s, std::fabs( x.second ) ); return s; }
    void resize( unsigned nr, unsigned nc ) { r = nr; c = nc; for( auto it = d.begin(); it != d.end(); ) if( it->first.first >= r || it->first.second >= c ) it = d.erase( it ); else ++it; }
    M tr() const { M t; t.r = c; t.c = r; for( auto& x : d ) t.d[I( x.first.second, x.first.first )] = x.second; return t; }
    M blk( unsigned fr, unsigned fc, unsigned nr, unsigned nc ) const { M t; t.r = nr; t.c = nc; for( auto& x : d ) if( x.first.first >= fr && x.first.first < fr+nr && x.first.second >= fc && x.first.second < fc+nc ) t.d[I( x.first.first-fr, x.first.second-fc )] = x.second; return t; }
    M mul( const M& o ) const { M t; t.r = r; t.c = o.c; for( unsigned i = 0; i < r; ++i ) for( unsigned j = 0; j < o.c; ++j ) { double s = 0; for( unsigned k = 0; k < c; ++k ) s += get( i, k )*o.get( k, j ); if( s != 0 ) t.d[I( i, j )] = s; } return t; }
    std::string str() const { std::ostringstream s; s.precision( 17 ); s << r << "x" << c << "{"; for( auto& x : d ) s << "(" << x.first.first << "," << x.first.second << ")=" << x.second << " "; s << "}"; return s.str(); }
};
static S mk( const M& m ) { S s( m.r, m.c ); for( auto& x : m.d ) s.at( x.first.first, x.first.second ) = x.second; return s; }

// Element access, pattern queries and iteration of any matrix-like object
template< class X > static void same( pbt::Ctx& c, const char *what, const X& x, const M& m, bool pattern = true, double scale = 0 )
{
    EXPECT( x.size() == I( m.r, m.c ), what, "size " << x.size().first << "x" << x.size().second << ", expected " << m.r << "x" << m.c );
    double s = std::max( scale, m.big() );
    for( unsigned i = 0; i < m.r; ++i )
        for( unsigned j = 0; j < m.c; ++j ) {
            double e = m.get( i, j );
            EXPECT( close( x.get( I( i, j ) ), e, s, 1e-13 ), what, "element (" << i << "," << j << ") is " << x.get( I( i, j ) ) << ", expected " << e );
            EXPECT( close( x[I( i, j )], e, s, 1e-13 ), what, "[" << i << "," << j << "] is " << x[I( i, j )] << ", expected " << e );
            EXPECT( close( x.get( i, j ), e, s, 1e-13 ), what, "get(" << i << "," << j << ") is " << x.get( i, j ) << ", expected " << e );
            auto cg = x.checkedGet( I( i, j ) );
            EXPECT( cg.second == x.hasIndex( I( i, j ) ), what, "checkedGet and hasIndex disagree at (" << i << "," << j << ")" );
            EXPECT( close( cg.first, e, s, 1e-13 ), what, "checkedGet(" << i << "," << j << ") is " << cg.first << ", expected " << e );
            if( pattern ) EXPECT( cg.second == m.has( i, j ), what, "presence of (" << i << "," << j << ") is " << cg.second );
        }
    std::set<I> seen;
    for( auto v : x ) {
        I ix = v.first; double val = v.second;
        EXPECT( seen.insert( ix ).second, what, "iteration visits (" << ix.first << "," << ix.second << ") twice" );
        EXPECT( ix.first < m.r && ix.second < m.c, what, "iteration visits (" << ix.first << "," << ix.second << ") outside of the matrix" );
        EXPECT( close( val, m.get( ix.first, ix.second ), s, 1e-13 ), what, "iteration yields " << val << " at (" << ix.first << "," << ix.second << ")" );
    }
    for( auto& y : m.d ) if( y.second != 0 ) EXPECT( seen.count( y.first ), what, "iteration misses (" << y.first.first << "," << y.first.second << ")" );
    EXPECT( x.count() == seen.size(), what, "count() is " << x.count() << ", iteration visits " << seen.size() );
    EXPECT( x.empty() == seen.empty(), what, "empty() is " << x.empty() );
    if( pattern ) EXPECT( seen.size() == m.d.size(), what, "stored elements: " << seen.size() << ", expected " << m.d.size() );
}
// y = A x and y = x A, both through the raw interface and through the operators
template< class X > static void vecmul( pbt::Ctx& c, const char *what, X& x, const M& m )
{
    V a( m.c ), b( m.r );
    for( auto& t : a ) t = c.num(); for( auto& t : b ) t = c.num();
    V ra = x*a, lb = b*x;
    EXPECT( ra.size() == m.r, what, "size of matrix*vector is " << ra.size() << ", expected " << m.r );
    EXPECT( lb.size() == m.c, what, "size of vector*matrix is " << lb.size() << ", expected " << m.c );
    std::vector<double> ra2( m.r + 1, 7 ), lb2( m.c + 1, 7 );
    x.mulVectRight( a.begin(), ra2.begin() ); x.mulVectLeft( b.begin(), lb2.begin() );
    EXPECT( ra2[m.r] == 7 && lb2[m.c] == 7, what, "product written past its end" );
    for( unsigned i = 0; i < m.r; ++i ) { double e = 0, s = 0; for( unsigned j = 0; j < m.c; ++j ) { e += m.get( i, j )*a[j]; s += std::fabs( m.get( i, j )*a[j] ); }
        EXPECT( close( ra[i], e, s, 1e-12 ) && close( ra2[i], e, s, 1e-12 ), what, "(A x)[" << i << "] = " << ra[i] << " / " << ra2[i] << ", expected " << e ); }
    for( unsigned j = 0; j < m.c; ++j ) { double e = 0, s = 0; for( unsigned i = 0; i < m.r; ++i ) { e += m.get( i, j )*b[i]; s += std::fabs( m.get( i, j )*b[i] ); }
        EXPECT( close( lb[j], e, s, 1e-12 ) && close( lb2[j], e, s, 1e-12 ), what, "(x A)[" << j << "] = " << lb[j] << " / " << lb2[j] << ", expected " << e ); }
}
template< class X > static void norms( pbt::Ctx& c, const char *what, const X& x, const M& m )
{
    double one = 0, sq = 0, inf = 0; for( auto& y : m.d ) { one += std::fabs( y.second ); sq += y.second*y.second; inf = std::max( inf, std::fabs( y.second ) ); }
    EXPECT( close( x.oneNorm(), one, one, 1e-13 ), what, "sum of magnitudes " << x.oneNorm() << ", expected " << one );
    EXPECT( close( x.infNorm(), inf, inf, 1e-13 ), what, "largest magnitude " << x.infNorm() << ", expected " << inf );
    EXPECT( close( x.euclideanNormSquare(), sq, sq, 1e-13 ), what, "sum of squares " << x.euclideanNormSquare() << ", expected " << sq );
    EXPECT( close( x.euclideanNorm(), std::sqrt( sq ), std::sqrt( sq ), 1e-13 ), what, "euclidean norm " << x.euclideanNorm() << ", expected " << std::sqrt( sq ) );
}
static M genM( pbt::Ctx& c, unsigned r, unsigned cc )
{
    M m; m.r = r; m.c = cc; int dens = c.pickw( { 2, 3, 2 } ), few = std::max( r, cc ) > 12;
    for( unsigned i = 0; i < r; ++i ) for( unsigned j = 0; j < cc; ++j )
        if( few ? c.chance( 1 + 2*dens, 20 ) : dens == 2 || c.chance( dens == 0 ? 1 : 2, 4 ) ) m.d[I( i, j )] = c.num();
    return m;
}

PBT( sparse_state_machine, 60000, 800000,
     "a pool of sparse matrices (any shape up to 6x6, empty rows and columns included) driven through random operations, compared after each with a dense model; "
     "non-trivial: at least two operations on matrices with stored elements, one of them on a non-square matrix or through a view" )
{
    const int K = 3; std::vector<S> s; std::vector<M> m;
    int big = c.chance( 1, 80 ) ? c.range( 8, 30 ) : 0;
    for( int i = 0; i < K; ++i ) { M x = genM( c, big ? big + c.range( 0, 2 ) : c.range( 0, 5 ), big ? big + c.range( 0, 2 ) : c.range( 0, 5 ) ); m.push_back( x ); s.push_back( mk( x ) ); c.log << "m" << i << "=" << x.str() << "; "; }
    int ops = c.range( 1, 14 ), work = 0, views = 0;
    auto conform = [&]( int b, unsigned r, unsigned cc ) { if( s[b].size() != I( r, cc ) ) { s[b].resize( r, cc ); m[b].resize( r, cc ); same( c, "resize", s[b], m[b] ); } };
    for( int o = 0; o < ops; ++o ) {
        int a = c.range( 0, K-1 ), b = ( a + c.range( 1, K-1 ) )%K, op = c.range( 0, 21 );
        unsigned r = m[a].r, cc = m[a].c;
        c.log << "op" << op << "(" << a << "," << b << ") ";
        if( !m[a].d.empty() ) { ++work; if( r != cc ) ++views; }
        switch( op ) {
            case 0: if( r && cc ) { unsigned i = c.range( 0, r-1 ), j = c.range( 0, cc-1 ); double x = c.num(); if( c.flip() ) s[a].at( i, j ) = x; else s[a].at( I( i, j ) ) = x; m[a].d[I( i, j )] = x; } break;
            case 1: if( r && cc ) { unsigned i = c.range( 0, r-1 ), j = c.range( 0, cc-1 ); s[a].removeAt( I( i, j ) ); m[a].d.erase( I( i, j ) ); } break;
            case 2: { bool huge = big && c.flip(); unsigned nr = huge ? c.range( 8, 34 ) : c.range( 0, 6 ), nc = huge ? c.range( 8, 34 ) : c.range( 0, 6 ); if( c.flip() ) s[a].resize( nr, nc ); else s[a].resize( I( nr, nc ) ); m[a].resize( nr, nc ); break; }
            case 3: s[a].makeZero(); for( auto& x : m[a].d ) x.second = 0; break;
            case 4: { unsigned n = std::min( r, cc ); s[a].resize( n, n ); m[a].resize( n, n ); double x = c.num(); bool one = c.flip(); if( one ) { s[a].addIdentity(); x = 1; } else s[a].addScaledIdentity( x );
                      for( unsigned i = 0; i < n; ++i ) m[a].d[I( i, i )] += x; break; }
            case 5: { conform( b, r, cc ); s[a] += s[b]; for( auto& x : m[b].d ) m[a].d[x.first] += x.second; break; }
            case 6: { conform( b, r, cc ); s[a] -= s[b]; for( auto& x : m[b].d ) m[a].d[x.first] -= x.second; break; }
            case 7: { conform( b, r, cc ); double k = c.num(); if( c.flip() ) { s[a] += s[b].scaled( k ); for( auto& x : m[b].d ) m[a].d[x.first] += k*x.second; } else { s[a] -= s[b].scaled( k ); for( auto& x : m[b].d ) m[a].d[x.first] -= k*x.second; } ++views; break; }
            case 8: { conform( b, cc, (unsigned)c.range( 0, 5 ) ); M p = m[a].mul( m[b] ); S q = s[a]*s[b]; same( c, "product", q, p, false, 64*6*m[a].big()*m[b].big()/64 ); int d = c.range( 0, K-1 ); s[d] = q; m[d] = p;
                      // rounding may turn an exact zero into a stored tiny value or the reverse: take the stored values over
                      m[d].d.clear(); for( auto v : s[d] ) m[d].d[v.first] = v.second; break; }
            case 9: { unsigned n = std::min( r, cc ); conform( a, n, n ); conform( b, n, n ); M p = m[a].mul( m[b] ); double sc = n*m[a].big()*m[b].big(); s[a] *= s[b]; same( c, "product-assign", s[a], p, false, sc ); m[a] = p; m[a].d.clear(); for( auto v : s[a] ) m[a].d[v.first] = v.second; break; }
            case 10: vecmul( c, "matrix-vector", s[a], m[a] ); break;
            case 11: { auto t = s[a].transposed(); M e = m[a].tr(); same( c, "transposed", t, e ); S copy = t; same( c, "transposed-copy", copy, e ); vecmul( c, "transposed-vector", t, e ); norms( c, "transposed-norm", t, e );
                       int d = c.range( 0, K-1 ); if( d != a ) { s[d] = t; m[d] = e; } ++views; break; }
            case 12: { conform( b, cc, r ); s[a] += s[b].transposed(); for( auto& x : m[b].d ) m[a].d[I( x.first.second, x.first.first )] += x.second; ++views; break; }
            case 13: { unsigned nr = c.range( 0, r ), nc = c.range( 0, cc ), fr = c.range( 0, r-nr ), fc = c.range( 0, cc-nc );
                       auto k = s[a].block( fr, fc, nr, nc ); M e = m[a].blk( fr, fc, nr, nc ); same( c, "block", k, e ); S copy = k; same( c, "block-copy", copy, e ); vecmul( c, "block-vector", k, e ); norms( c, "block-norm", k, e );
                       same( c, "block-clone", k.clone(), e );
                       if( nr && nc ) { unsigned n2 = c.range( 0, nr ), c2 = c.range( 0, nc ), f2 = c.range( 0, nr-n2 ), g2 = c.range( 0, nc-c2 ); auto kk = k.block( f2, g2, n2, c2 ); same( c, "nested-block", kk, m[a].blk( fr+f2, fc+g2, n2, c2 ) ); }
                       M o2 = genM( c, nc, c.range( 0, 3 ) ); S so = mk( o2 ); S q = k*so; same( c, "block-product", q, e.mul( o2 ), false, 6*e.big()*o2.big() );
                       ++views; break; }
            case 14: { unsigned nr = c.range( 0, r ), nc = c.range( 0, cc ), fr = c.range( 0, r-nr ), fc = c.range( 0, cc-nc ); auto k = s[a].block( I( fr, fc ), I( nr, nc ) );
                       int w = c.range( 0, 4 ); M src = genM( c, nr, nc ); S ss = mk( src ); double f = c.num();
                       auto inblk = [&]( I x ) { return x.first >= fr && x.first < fr+nr && x.second >= fc && x.second < fc+nc; };
                       if( w == 0 ) { k = ss; for( auto it = m[a].d.begin(); it != m[a].d.end(); ) if( inblk( it->first ) ) it = m[a].d.erase( it ); else ++it; for( auto& x : src.d ) m[a].d[I( x.first.first+fr, x.first.second+fc )] = x.second; }
                       else if( w == 1 ) { k += ss; for( auto& x : src.d ) m[a].d[I( x.first.first+fr, x.first.second+fc )] += x.second; }
                       else if( w == 2 ) { k -= ss.scaled( f ); for( auto& x : src.d ) m[a].d[I( x.first.first+fr, x.first.second+fc )] -= f*x.second; }
                       else if( w == 3 ) { k.clear(); for( auto it = m[a].d.begin(); it != m[a].d.end(); ) if( inblk( it->first ) ) it = m[a].d.erase( it ); else ++it; }
                       else if( nr && nc ) { unsigned i = c.range( 0, nr-1 ), j = c.range( 0, nc-1 ); if( c.flip() ) { k.at( I( i, j ) ) = f; m[a].d[I( fr+i, fc+j )] = f; } else { k.removeAt( I( i, j ) ); m[a].d.erase( I( fr+i, fc+j ) ); } }
                       ++views; break; }
            case 15: { double f = c.num(); M e = m[a]; for( auto& x : e.d ) x.second *= f; auto k = s[a].scaled( f ); same( c, "scaled", k, e ); vecmul( c, "scaled-vector", k, e ); S copy = k; same( c, "scaled-copy", copy, e ); norms( c, "scaled-norm", k, e );
                       M o2 = genM( c, cc, c.range( 0, 3 ) ); S so = mk( o2 ); S q = k*so; same( c, "scaled-product", q, e.mul( o2 ), false, 6*e.big()*o2.big() );
                       int d = c.range( 0, K-1 ); if( d != a ) { s[d] = k; m[d] = e; } ++views; break; }
            case 16: norms( c, "norm", s[a], m[a] ); break;
            case 17: { S copy( s[a] ); same( c, "copy", copy, m[a] ); S cl = s[a].clone(); same( c, "clone", cl, m[a] ); if( r && cc ) { cl.at( 0, 0 ) += 1; copy.at( r-1, cc-1 ) = 99; } same( c, "copy-independent", s[a], m[a] ); s[b] = s[a]; m[b] = m[a]; break; }
            case 18: { // the compact (fixed pattern) representation holds the same matrix
                       F f; if( c.flip() ) f = F( s[a] ); else f = s[a]; same( c, "compact", f, m[a] ); vecmul( c, "compact-vector", f, m[a] ); norms( c, "compact-norm", f, m[a] );
                       F t; t = s[a].transposed(); M e = m[a].tr(); same( c, "compact-transposed", t, e ); 
                       for( auto& x : m[a].d ) if( c.flip() ) { double v = c.num(); f.at( x.first ) = v; m[a].d[x.first] = v; }
                       F g; g = f; same( c, "compact-copy", g, m[a] ); s[a] = f; S back( f ); same( c, "compact-back", back, m[a] );
                       g.makeZero(); M z = m[a]; for( auto& x : z.d ) x.second = 0; same( c, "compact-zero", g, z ); same( c, "compact-independent", f, m[a] ); ++views; break; }
            case 19: { // text forms
                       std::ostringstream os; os << s[a]; std::istringstream is( os.str() ); std::string line; unsigned rows = 0;
                       while( std::getline( is, line ) ) { std::istringstream ls( line ); std::string w; unsigned col = 0; while( ls >> w ) { std::ostringstream e; e << m[a].get( rows, col ); EXPECT( col < cc && rows < r && w == e.str(), "print", "row " << rows << " column " << col << " printed as '" << w << "', expected '" << e.str() << "'" ); ++col; }
                           EXPECT( col == cc, "print", "row " << rows << " has " << col << " columns printed" ); ++rows; }
                       EXPECT( rows == r, "print", rows << " rows printed of " << r );
                       std::ostringstream sc; printScilabMatrix( sc, s[a], "A" ); std::ostringstream es; es << "A = zeros(" << r << ", " << cc << ");\n"; for( auto& x : m[a].d ) es << "A(" << x.first.first+1 << ", " << x.first.second+1 << ") = " << x.second << ";\n";
                       EXPECT( sc.str() == es.str(), "print-scilab", sc.str() << " expected " << es.str() ); break; }
            case 20: { unsigned n = c.range( 0, 5 ); double f = c.num(); S i1 = S::identity( n ), i2 = S::scaledIdentity( n, f ); M e; e.r = e.c = n; for( unsigned i = 0; i < n; ++i ) e.d[I( i, i )] = 1; same( c, "identity", i1, e ); for( auto& x : e.d ) x.second = f; same( c, "scaled-identity", i2, e ); break; }
            default: { if( c.flip() ) { s[a].clear(); m[a].d.clear(); }
                       I sz( 0, 0 ); for( auto& x : m[a].d ) { sz.first = std::max( sz.first, x.first.first+1 ); sz.second = std::max( sz.second, x.first.second+1 ); }
                       EXPECT( s[a].sizeFromData() == sz, "size-from-data", "sizeFromData " << s[a].sizeFromData().first << "x" << s[a].sizeFromData().second );
                       if( c.flip() ) { s[a].resizeFromData(); m[a].resize( sz.first, sz.second ); } break; }
        }
        for( int i = 0; i < K; ++i ) {
            same( c, "state", s[i], m[i] );
            for( auto& x : m[i].d ) x.second = s[i].get( x.first );       // do not let rounding differences accumulate
            if( m[i].big() > 1e60 ) { s[i].makeZero(); for( auto& x : m[i].d ) x.second = 0; }
        }
    }
    c.nontrivial( work >= 2 && views >= 1 );
}

PBT( sparse_laws, 30000, 300000,
     "(A B) x = A (B x), (A B)^T = B^T A^T, distributivity, x (A y) = (x A) y on random conforming shapes; non-trivial: no empty dimension and both matrices have elements" )
{
    unsigned p = c.range( 0, 5 ), q = c.range( 0, 5 ), r = c.range( 0, 5 );
    M a = genM( c, p, q ), b = genM( c, q, r ), d = genM( c, q, r ); S A = mk( a ), B = mk( b ), D = mk( d );
    c.log << "A=" << a.str() << " B=" << b.str() << " D=" << d.str();
    V x( r ), y( p ); for( auto& t : x ) t = c.num(); for( auto& t : y ) t = c.num();
    double s = 36*( a.big() + 1 )*( b.big() + d.big() + 1 )*8*8;
    V l = ( A*B )*x, rr = A*( B*x );
    EXPECT( l.size() == p && rr.size() == p, "associativity", "sizes" );
    for( unsigned i = 0; i < p; ++i ) EXPECT( close( l[i], rr[i], s, 1e-13 ), "associativity", "((AB)x)[" << i << "] " << l[i] << " vs " << rr[i] );
    S ABt = ( A*B ).transposed(), BtAt = S( B.transposed() )*S( A.transposed() );
    EXPECT( ABt.size() == BtAt.size(), "transpose-product", "sizes" );
    for( unsigned i = 0; i < r; ++i ) for( unsigned j = 0; j < p; ++j ) EXPECT( close( ABt.get( i, j ), BtAt.get( i, j ), s, 1e-13 ), "transpose-product", "(AB)^T differs from B^T A^T at (" << i << "," << j << ")" );
    S BD = B; BD += D; S dist = A*BD, sum = A*B; sum += A*D;
    for( unsigned i = 0; i < p; ++i ) for( unsigned j = 0; j < r; ++j ) EXPECT( close( dist.get( i, j ), sum.get( i, j ), s, 1e-13 ), "distributivity", "A(B+D) differs from AB+AD" );
    S AB = A*B; double u = y.dot( AB*x ), w = ( y*AB ).dot( x );
    EXPECT( close( u, w, s*64, 1e-12 ), "bilinear", "y.(Mx) = " << u << ", (yM).x = " << w );
    // scaling by powers of two is exact
    int k = c.range( -60, 60 ), m = c.range( -60, 60 ); S A2 = A.scaled( std::ldexp( 1., k ) ), B2 = B.scaled( std::ldexp( 1., m ) ), P2 = A2*B2; V x2 = x; x2 *= std::ldexp( 1., m ); V y2 = A2*V( B*x2 ), yb = A*V( B*x ); c.log << " scales " << k << ", " << m;
    for( unsigned i = 0; i < p; ++i ) for( unsigned j = 0; j < r; ++j ) EXPECT( P2.get( i, j ) == std::ldexp( AB.get( i, j ), k+m ), "scaling", "element (" << i << "," << j << ") of a product of scaled matrices is " << P2.get( i, j ) << ", expected " << std::ldexp( AB.get( i, j ), k+m ) );
    for( unsigned i = 0; i < p; ++i ) EXPECT( y2[i] == std::ldexp( yb[i], k+m ), "scaling", "element " << i << " of the scaled vector is " << y2[i] << ", expected " << std::ldexp( yb[i], k+m ) );
    EXPECT( A2.infNorm() == std::ldexp( A.infNorm(), k ) && A2.oneNorm() == std::ldexp( A.oneNorm(), k ) && A2.euclideanNorm() == std::ldexp( A.euclideanNorm(), k ), "scaling", "norms of a scaled matrix" );
    c.nontrivial( p && q && r && !a.d.empty() && !b.d.empty() );
}
