/* The meaning of a size text, stated independently of the code. */
#if !defined( VERIF_SIZEORACLE_H )
#define VERIF_SIZEORACLE_H
/* What a size text denotes.  Returns 1 with the value, 0 when it is to be refused, -1 when nothing is stated. */
static int is_digit( chr_t c ) { return c >= (chr_t) '0' && c <= (chr_t) '9'; }
static int over;
static uint64_t mul( uint64_t v, uint64_t u ) { if( v > UINT64_MAX / u ) over = 1; return v * u; }
static int denotes( const chr_t *s, unsigned n, uint64_t *value )
{
	uint64_t v = 0, u, f = 0;
	unsigned i = 0, digits = 0, fd = 0, k, factor = 0;
	over = 0;
	while( i < n && is_digit( s[ i ] ) )
	{
		uint64_t d = (uint64_t) ( s[ i ] - (chr_t) '0' );
		if( v > ( UINT64_MAX - d ) / 10 ) over = 1;
		v = v * 10 + d;
		i++; digits++;
	}
	if( i < n && s[ i ] == (chr_t) dp )
	{
		i++;
		while( i < n && is_digit( s[ i ] ) )
		{
			if( fd < 2 ) f = f * 10 + (uint64_t) ( s[ i ] - (chr_t) '0' );
			fd++; i++;
		}
		if( fd == 0 ) digits = 0;
		if( fd == 1 ) f *= 10;
	}
	if( i < n && s[ i ] == (chr_t) ' ' ) i++;
	if( i < n )
		switch( s[ i ] )
		{
			case 'k': case 'K': factor = 1; break;
			case 'm': case 'M': factor = 2; break;
			case 'g': case 'G': factor = 3; break;
			case 't': case 'T': factor = 4; break;
			case 'p': case 'P': factor = 5; break;
			case 'e': case 'E': factor = 6; break;
			case 'z': case 'Z': factor = 7; break;
			case 'y': case 'Y': factor = 8; break;
		}
	if( factor ) i++;
	if( i >= n ) u = 1024;
	else if( s[ i ] == (chr_t) 'B' ) u = 1000;
	else if( s[ i ] == (chr_t) 'i' && i + 1 < n && s[ i + 1 ] == (chr_t) 'B' ) u = 1024;
	else return 0;
	if( factor )
	{
		/* the fraction counts in whole units of the next smaller kind */
		v = mul( v, u );
		f = f * u / 100;
		if( v > UINT64_MAX - f ) over = 1;
		v += f;
		for( k = 1; k < 8; k++ )
			if( k < factor ) v = mul( v, u );
	}
	*value = v;
	if( digits == 0 ) return -1;
	return over ? 0 : 1;
}

#if defined( SHAPE )
#define LEN ( sizeof( SHAPE ) - 1 )
/* a text of the shape: 9 any digit, ? anything, . the decimal point, the rest as written */
static void shape( chr_t *s )
{
	unsigned i;
	for( i = 0; i < LEN; i++ )
	{
		if( SHAPE[ i ] == '9' ) s[ i ] = (chr_t) ( '0' + ndrange( 0, 9 ) );
		else if( SHAPE[ i ] == '?' ) s[ i ] = (chr_t) ndrange( 1, 127 );
		else s[ i ] = (chr_t) SHAPE[ i ];
	}
	s[ LEN ] = 0;
	for( i = 0; i < LEN; i++ ) if( SHAPE[ i ] == '.' ) s[ i ] = (chr_t) dp;
}
#endif
#endif
