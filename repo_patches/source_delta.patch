From e9a417db43baab98fdb63ec704cf3901ab1d9170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:07 +0000
Subject: [PATCH 001/248] fix: string_view::contains( s, pos, count ) compares
 the search result with npos

---
 include/daw/daw_string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 36be0f1..b469880 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -2084,7 +2084,7 @@ namespace daw {
 			/// @brief Test if the string_view contains the supplied pattern
 			[[nodiscard]] constexpr bool contains( const_pointer s, size_type pos,
 			                                       size_type count ) const {
-				return find( basic_string_view<CharT>( s, count ), pos );
+				return find( basic_string_view<CharT>( s, count ), pos ) != npos;
 			}
 
 			/// @brief Test if the string_view contains the supplied pattern
-- 
2.43.0


From 3eadc08b79b786df133f2609af62acebb64795a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:07 +0000
Subject: [PATCH 002/248] fix: string_view::find of a substring does not read
 past the end when pos > size( )

---
 include/daw/daw_string_view.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index b469880..6e32c27 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -2053,7 +2053,7 @@ namespace daw {
 
 			[[nodiscard]] constexpr size_type find( basic_string_view v,
 			                                        size_type pos = 0 ) const {
-				if( size( ) < v.size( ) ) {
+				if( pos > size( ) or size( ) - pos < v.size( ) ) {
 					return npos;
 				}
 				if( v.empty( ) ) {
@@ -2100,7 +2100,7 @@ namespace daw {
 
 			[[nodiscard]] constexpr size_type
 			find_first_match( basic_string_view v, size_type pos ) const {
-				if( size( ) < v.size( ) ) {
+				if( pos > size( ) or size( ) - pos < v.size( ) ) {
 					return npos;
 				}
 				if( v.empty( ) ) {
-- 
2.43.0


From b993b5d3d69843fdd2c2a97d72f686262f576d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:07 +0000
Subject: [PATCH 003/248] fix: string_view::find of a character returns a
 position relative to data( ) and compares wide characters correctly

---
 include/daw/daw_string_view.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 6e32c27..d9286a8 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -2005,8 +2005,9 @@ namespace daw {
 							return npos;
 						}
 						return static_cast<std::size_t>( static_cast<CharT const *>( r ) -
-						                                 first );
-					} else if constexpr( sizeof( CharT ) == 2 ) {
+						                                 data( ) );
+					} else if constexpr( sizeof( CharT ) == 2 and
+					                     sizeof( wchar_t ) == 2 ) {
 						wchar_t const *r =
 						  ::wmemchr( const_cast<wchar_t *>(
 						               reinterpret_cast<wchar_t const *>( first ) ),
@@ -2016,11 +2017,11 @@ namespace daw {
 							return npos;
 						}
 						return static_cast<std::size_t>(
-						  reinterpret_cast<CharT const *>( r ) - first );
+						  reinterpret_cast<CharT const *>( r ) - data( ) );
 					} else {
-						for( std::size_t n = pos; n < sz; ++n ) {
+						for( std::size_t n = 0; n < sz; ++n ) {
 							if( first[n] == c ) {
-								return n;
+								return pos + n;
 							}
 						}
 						return npos;
@@ -2028,9 +2029,9 @@ namespace daw {
 				}
 				else {
 #endif
-					for( std::size_t n = pos; n < sz; ++n ) {
+					for( std::size_t n = 0; n < sz; ++n ) {
 						if( first[n] == c ) {
-							return n;
+							return pos + n;
 						}
 					}
 					return npos;
-- 
2.43.0


From 864cd83ef47bcf820efa56e2ee2914f3eb635a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:07 +0000
Subject: [PATCH 004/248] fix: string_view::find_last_not_of/_if do not read
 data( )[size( )] when pos == size( )

---
 include/daw/daw_string_view.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index d9286a8..b06fa7f 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -2458,7 +2458,7 @@ namespace daw {
 				if( empty( ) ) {
 					return npos;
 				}
-				if( pos > size( ) ) {
+				if( pos >= size( ) ) {
 					pos = size( ) - 1;
 				}
 				for( auto n = static_cast<difference_type>( pos ); n >= 0; --n ) {
@@ -2482,7 +2482,7 @@ namespace daw {
 				if( empty( ) ) {
 					return npos;
 				}
-				if( pos > size( ) ) {
+				if( pos >= size( ) ) {
 					pos = size( ) - 1;
 				}
 				if( v.empty( ) ) {
-- 
2.43.0


From b364e08e7e4bcd887593b154f02ef49572877a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:07 +0000
Subject: [PATCH 005/248] fix: string_view::search/search_last find occurrences
 that reach the end and the last occurrence

---
 include/daw/daw_string_view.h | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index b06fa7f..425a0cb 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -2211,7 +2211,7 @@ namespace daw {
 
 			[[nodiscard]] constexpr size_type search( basic_string_view v,
 			                                          size_type pos = 0 ) const {
-				if( ( pos + v.size( ) ) >= size( ) or v.empty( ) ) {
+				if( pos > size( ) or size( ) - pos < v.size( ) or v.empty( ) ) {
 					return npos;
 				}
 				auto const iter = sv2_details::search(
@@ -2232,17 +2232,11 @@ namespace daw {
 
 			[[nodiscard]] constexpr size_type search_last( basic_string_view v,
 			                                               size_type pos = 0 ) const {
-				if( pos + v.size( ) >= size( ) or v.empty( ) ) {
-					return npos;
-				}
-				auto last_pos = pos;
+				auto last_pos = npos;
 				auto fpos = search( v, pos );
 				while( fpos != npos ) {
 					last_pos = fpos;
-					fpos = search( v, fpos );
-					if( fpos == last_pos ) {
-						break;
-					}
+					fpos = search( v, fpos + 1 );
 				}
 				return last_pos;
 			}
-- 
2.43.0


From 02c7961f001dfc7be62304c9eb13f0479a41a663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:07 +0000
Subject: [PATCH 006/248] fix: string_view::find_first_match tries every needle
 at each position

---
 include/daw/daw_string_view.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 425a0cb..74ec5de 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -362,10 +362,11 @@ namespace daw {
 			        std::initializer_list<basic_string_view<CharT>> needles ) {
 				auto const last = daw::data_end( haystack );
 				for( ; not haystack.empty( ); haystack.remove_prefix( ) ) {
-					auto it = haystack.data( );
-
 					for( auto needle : needles ) {
-						if( needle.size( ) > haystack.size( ) ) {}
+						if( needle.size( ) > haystack.size( ) ) {
+							continue;
+						}
+						auto it = haystack.data( );
 						auto s_first = std::data( needle );
 						auto const s_last = daw::data_end( needle );
 						for( auto s_it = s_first;; ++it, ++s_it ) {
-- 
2.43.0


From c95c4d8d3a7efbcea1e06f645e2e5fbc51eebfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:05 +0000
Subject: [PATCH 007/248] fix: string_view::substr_unsafe keeps the zero
 terminated mark only when the source has it

---
 include/daw/daw_string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 74ec5de..66eb33a 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1841,7 +1841,7 @@ namespace daw {
 				DAW_STRING_VIEW_DBG_RNG_CHECK(
 				  pos + count <= size( ),
 				  "Attempt to access basic_string_view past end" );
-				if( pos + count == size( ) ) {
+				if( pos + count == size( ) and is_zero_terminated( ) ) {
 					return basic_string_view(
 					  m_first + pos, m_first + pos + count, zero_terminated );
 				} else {
-- 
2.43.0


From b469c8d5a16395231b00a9d330a4d0db8a5223d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:05 +0000
Subject: [PATCH 008/248] fix: string_view::pop_front_unsafe( count ) returns
 the removed prefix, not the whole view

---
 include/daw/daw_string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 66eb33a..b722b81 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1163,7 +1163,7 @@ namespace daw {
 				DAW_STRING_VIEW_DBG_RNG_CHECK(
 				  size( ) >= count,
 				  "Attempt to pop front too many elements basic_string_view" );
-				basic_string_view result = substr_unsafe( 0 );
+				basic_string_view result = substr_unsafe( 0, count );
 				remove_prefix_unsafe( count );
 				return result;
 			}
-- 
2.43.0


From fb6a7d0a5f9cfa94a21200d5c1ee6fc40be0e2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:05 +0000
Subject: [PATCH 009/248] fix: string_view::pop_back_until/try_pop_back_until
 with nodiscard keep the delimiter

---
 include/daw/daw_string_view.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index b722b81..9a54953 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1366,7 +1366,7 @@ namespace daw {
 					return result;
 				}
 				auto result = substr( pos + where.size( ) );
-				remove_suffix( size( ) - pos );
+				remove_suffix( size( ) - ( pos + where.size( ) ) );
 				return result;
 			}
 
@@ -1382,7 +1382,7 @@ namespace daw {
 					remove_prefix( npos );
 					return result;
 				}
-				auto result = substr( pos + where.size( ) );
+				auto result = substr( pos + 1 );
 				remove_suffix( ( size( ) - pos ) - 1 );
 				return result;
 			}
@@ -1467,8 +1467,8 @@ namespace daw {
 					remove_prefix( npos );
 					return result;
 				}
-				auto result = substr( pos );
-				remove_suffix( size( ) - pos );
+				auto result = substr( pos + 1 );
+				remove_suffix( ( size( ) - pos ) - 1 );
 				return result;
 			}
 
@@ -1615,7 +1615,7 @@ namespace daw {
 					return basic_string_view<CharT>( );
 				}
 				auto result = substr( pos + where.size( ) );
-				remove_suffix( size( ) - pos );
+				remove_suffix( size( ) - ( pos + where.size( ) ) );
 				return result;
 			}
 
-- 
2.43.0


From 4d680fac63b49bd8b5601d700b7ced6767725d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:05 +0000
Subject: [PATCH 010/248] fix: string_view::try_pop_back_until returns the text
 after the delimiter

---
 include/daw/daw_string_view.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 9a54953..f7a3f90 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1630,7 +1630,7 @@ namespace daw {
 				if( pos == npos ) {
 					return basic_string_view<CharT>( );
 				}
-				auto result = substr( pos );
+				auto result = substr( pos + 1 );
 				remove_suffix( ( size( ) - pos ) - 1 );
 				return result;
 			}
@@ -1646,7 +1646,7 @@ namespace daw {
 				if( pos == npos ) {
 					return basic_string_view<CharT>( );
 				}
-				auto result = substr( pos );
+				auto result = substr( pos + 1 );
 				remove_suffix( size( ) - pos );
 				return result;
 			}
@@ -1669,7 +1669,7 @@ namespace daw {
 				if( pos == npos ) {
 					return basic_string_view<CharT>( );
 				}
-				auto result = substr( pos );
+				auto result = substr( pos + 1 );
 				remove_suffix( size( ) - pos );
 				return result;
 			}
@@ -1692,7 +1692,7 @@ namespace daw {
 				if( pos == npos ) {
 					return basic_string_view<CharT>( );
 				}
-				auto result = substr( pos );
+				auto result = substr( pos + 1 );
 				remove_suffix( ( size( ) - pos - 1 ) );
 				return result;
 			}
-- 
2.43.0


From dd63e1b77c205676ea2e3da4a82f9caa27f139af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:05 +0000
Subject: [PATCH 011/248] fix: string_view::try_pop_front_until( pred ) leaves
 the view alone when nothing matches

---
 include/daw/daw_string_view.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index f7a3f90..2a4d5a8 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1580,7 +1580,11 @@ namespace daw {
 			DAW_REQ_UNARY_PRED_REQ( UnaryPredicate, CharT )
 			[[nodiscard]] constexpr basic_string_view
 			  try_pop_front_until( UnaryPredicate pred ) DAW_LIFETIME_BOUND {
-				auto result = try_pop_front_until( pred, nodiscard );
+				auto const pos = find_first_of_if( pred );
+				if( pos == npos ) {
+					return basic_string_view<CharT>( );
+				}
+				auto result = pop_front( pos );
 				remove_prefix( sv2_details::find_predicate_result_size( pred ) );
 				return result;
 			}
-- 
2.43.0


From 2abb2a88a4bb673ba36e487ee8edb3abc90c9877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:05 +0000
Subject: [PATCH 012/248] fix: string_view::remove_prefix_until( pred,
 nodiscard ) and trim_suffix_copy can be instantiated

---
 include/daw/daw_string_view.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 2a4d5a8..0c38444 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1776,7 +1776,7 @@ namespace daw {
 			DAW_ATTRIB_INLINE
 			  constexpr basic_string_view &remove_prefix_until( UnaryPredicate pred,
 			                                                    nodiscard_t ) {
-				auto pos = find_if( pred );
+				auto pos = find_first_of_if( pred );
 				dec_front( (std::min)( { size( ), pos } ) );
 				return *this;
 			}
@@ -2770,7 +2770,7 @@ namespace daw {
 			[[nodiscard]] constexpr basic_string_view
 			trim_suffix_copy( ) const noexcept DAW_LIFETIME_BOUND {
 				auto result = *this;
-				result = remove_suffix_while( is_space{ } );
+				result.remove_suffix_while( is_space{ } );
 				return result;
 			}
 
-- 
2.43.0


From f91fad9a81d7ac658c67c6327884517b1a6eb4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:42 +0000
Subject: [PATCH 013/248] fix: rotating a UInt64/UInt32 by 0 or by its width
 does not shift by the width

---
 include/daw/daw_uint_types.h | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/include/daw/daw_uint_types.h b/include/daw/daw_uint_types.h
index 6b17df0..a4feb67 100644
--- a/include/daw/daw_uint_types.h
+++ b/include/daw/daw_uint_types.h
@@ -664,24 +664,24 @@ namespace daw {
 		                            static_cast<std::uint64_t>( rhs ) );
 	}
 
+	constexpr UInt64 rotate_left( UInt64 value, unsigned bits ) {
+		return ( value << ( bits & 63U ) ) | ( value >> ( ( 64U - bits ) & 63U ) );
+	}
+
 	template<unsigned bits>
 	constexpr UInt64 rotate_left( UInt64 value ) {
 		static_assert( bits <= 64 );
-		return ( value << bits ) | ( value >> ( 64U - bits ) );
+		return rotate_left( value, bits );
 	}
 
-	constexpr UInt64 rotate_left( UInt64 value, unsigned bits ) {
-		return ( value << bits ) | ( value >> ( 64U - bits ) );
+	constexpr UInt64 rotate_right( UInt64 value, unsigned bits ) {
+		return ( value >> ( bits & 63U ) ) | ( value << ( ( 64U - bits ) & 63U ) );
 	}
 
 	template<unsigned bits>
 	constexpr UInt64 rotate_right( UInt64 value ) {
 		static_assert( bits <= 64 );
-		return ( value >> bits ) | ( value << ( 64U - bits ) );
-	}
-
-	constexpr UInt64 rotate_right( UInt64 value, unsigned bits ) {
-		return ( value >> bits ) | ( value << ( 64U - bits ) );
+		return rotate_right( value, bits );
 	}
 
 	constexpr UInt32 &operator<<=( UInt32 &b, std::uint32_t shift ) noexcept {
@@ -1072,24 +1072,24 @@ namespace daw {
 		                            static_cast<std::uint32_t>( rhs ) );
 	}
 
+	constexpr UInt32 rotate_left( UInt32 value, unsigned bits ) {
+		return ( value << ( bits & 31U ) ) | ( value >> ( ( 32U - bits ) & 31U ) );
+	}
+
 	template<unsigned bits>
 	constexpr UInt32 rotate_left( UInt32 value ) {
 		static_assert( bits <= 32 );
-		return ( value << bits ) | ( value >> ( 32U - bits ) );
+		return rotate_left( value, bits );
 	}
 
-	constexpr UInt32 rotate_left( UInt32 value, unsigned bits ) {
-		return ( value << bits ) | ( value >> ( 32U - bits ) );
+	constexpr UInt32 rotate_right( UInt32 value, unsigned bits ) {
+		return ( value >> ( bits & 31U ) ) | ( value << ( ( 32U - bits ) & 31U ) );
 	}
 
 	template<unsigned bits>
 	constexpr UInt32 rotate_right( UInt32 value ) {
 		static_assert( bits <= 32 );
-		return ( value >> bits ) | ( value << ( 32U - bits ) );
-	}
-
-	constexpr UInt32 rotate_right( UInt32 value, unsigned bits ) {
-		return ( value >> bits ) | ( value << ( 32U - bits ) );
+		return rotate_right( value, bits );
 	}
 
 	constexpr UInt16 &operator<<=( UInt16 &b, std::uint16_t shift ) noexcept {
-- 
2.43.0


From 51080a8dd3e321fa9fdbd8f773359ea28e098a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:42 +0000
Subject: [PATCH 014/248] fix: set_bit on a UInt64 keeps the upper half and
 works for the upper bits

---
 include/daw/daw_uint_types.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_uint_types.h b/include/daw/daw_uint_types.h
index a4feb67..3271b78 100644
--- a/include/daw/daw_uint_types.h
+++ b/include/daw/daw_uint_types.h
@@ -2878,9 +2878,9 @@ namespace daw {
 
 	template<unsigned N>
 	inline constexpr void set_bit( UInt64 &value, bool state ) {
-		static_assert( N <= 64 );
-		value =
-		  ( value & ( ~( 1U << N ) ) ) | ( static_cast<UInt64>( state ) << N );
+		static_assert( N < 64 );
+		value = ( value & ( ~( std::uint64_t{ 1 } << N ) ) ) |
+		        ( static_cast<UInt64>( state ) << N );
 	}
 
 	template<unsigned N>
-- 
2.43.0


From ee572cdd4c7119f8e7aefb6dc1cae0f9ed10f924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:42 +0000
Subject: [PATCH 015/248] fix: negating the UInt64/UInt32 with only the top bit
 set does not overflow

---
 include/daw/daw_uint_types.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_uint_types.h b/include/daw/daw_uint_types.h
index 3271b78..1eb3e44 100644
--- a/include/daw/daw_uint_types.h
+++ b/include/daw/daw_uint_types.h
@@ -1744,8 +1744,8 @@ namespace daw {
 	}
 
 	constexpr UInt64 operator-( UInt64 value ) {
-		return static_cast<UInt64>(
-		  static_cast<std::uint64_t>( -static_cast<std::int64_t>( value ) ) );
+		return static_cast<UInt64>( std::uint64_t{ 0 } -
+		                            static_cast<std::uint64_t>( value ) );
 	}
 
 	constexpr UInt64 &operator++( UInt64 &value ) {
@@ -2128,8 +2128,8 @@ namespace daw {
 	}
 
 	constexpr UInt32 operator-( UInt32 value ) {
-		return static_cast<UInt32>(
-		  static_cast<std::uint32_t>( -static_cast<std::int32_t>( value ) ) );
+		return static_cast<UInt32>( std::uint32_t{ 0 } -
+		                            static_cast<std::uint32_t>( value ) );
 	}
 
 	constexpr UInt32 &operator++( UInt32 &value ) {
-- 
2.43.0


From 60ea508be55785f57348d1e872d3414baf46083a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:42 +0000
Subject: [PATCH 016/248] fix: the largest _u16 and _u8 literals are accepted

---
 include/daw/daw_uint_types.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_uint_types.h b/include/daw/daw_uint_types.h
index 1eb3e44..a121115 100644
--- a/include/daw/daw_uint_types.h
+++ b/include/daw/daw_uint_types.h
@@ -3325,13 +3325,13 @@ namespace daw {
 
 	constexpr UInt16 operator""_u16( unsigned long long value ) {
 		assert(
-		  ( value < static_cast<unsigned long long>( max_value<std::uint16_t> ) ) );
+		  ( value <= static_cast<unsigned long long>( max_value<std::uint16_t> ) ) );
 		return static_cast<UInt16>( value );
 	}
 
 	constexpr UInt8 operator""_u8( unsigned long long value ) {
 		assert(
-		  ( value < static_cast<unsigned long long>( max_value<std::uint8_t> ) ) );
+		  ( value <= static_cast<unsigned long long>( max_value<std::uint8_t> ) ) );
 		return static_cast<UInt8>( value );
 	}
 } // namespace daw
-- 
2.43.0


From 4efcc27fe4cb3fa86bf91f6e8a9d972f2d2e54a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:42 +0000
Subject: [PATCH 017/248] fix: std::uint8_t / UInt64 does not truncate the
 divisor

---
 include/daw/daw_uint_types.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_uint_types.h b/include/daw/daw_uint_types.h
index a121115..ba5c0c1 100644
--- a/include/daw/daw_uint_types.h
+++ b/include/daw/daw_uint_types.h
@@ -2595,8 +2595,8 @@ namespace daw {
 	}
 
 	constexpr UInt8 operator/( std::uint8_t lhs, UInt64 rhs ) noexcept {
-		lhs = static_cast<std::uint8_t>( static_cast<std::uint32_t>( lhs ) /
-		                                 static_cast<std::uint32_t>( rhs ) );
+		lhs = static_cast<std::uint8_t>( static_cast<std::uint64_t>( lhs ) /
+		                                 static_cast<std::uint64_t>( rhs ) );
 		return static_cast<UInt8>( lhs );
 	}
 
-- 
2.43.0


From d6177b8e48d690986ee855b736208cdef5dc004e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:31 +0000
Subject: [PATCH 018/248] fix: bitset::unset only clears the requested bit

---
 include/daw/daw_bitset.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/daw/daw_bitset.h b/include/daw/daw_bitset.h
index 194bb8c..f75fffd 100644
--- a/include/daw/daw_bitset.h
+++ b/include/daw/daw_bitset.h
@@ -44,7 +44,6 @@ namespace daw {
 
 		DAW_ATTRIB_INLINE constexpr void unset( std::size_t index ) {
 			assert( index < size( ) );
-			m_bits[get_limb( index )] &= ~( 1u << index % 4 );
 			auto const limb = get_limb( index );
 			auto const mask = get_mask( index );
 			m_bits[limb] &= ~mask;
-- 
2.43.0


From 4b19d8ce89270b697a2445bf982a09d56ddf9010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:31 +0000
Subject: [PATCH 019/248] fix: network_to_host_endian and to_native_endian<big>
 swap bytes on little endian hosts

---
 include/daw/daw_endian.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_endian.h b/include/daw/daw_endian.h
index fa60fb6..03e5f93 100644
--- a/include/daw/daw_endian.h
+++ b/include/daw/daw_endian.h
@@ -135,7 +135,7 @@ namespace daw {
 		if constexpr( endian::native == endian::big ) {
 			return value;
 		} else {
-			return to_little_endian( value );
+			return endian_details::swap_bytes( value, daw::constant<sizeof( T )>{ } );
 		}
 	}
 
@@ -144,10 +144,8 @@ namespace daw {
 	constexpr T to_native_endian( T value ) noexcept {
 		if constexpr( SourceEndian == endian::native ) {
 			return value;
-		} else if constexpr( endian::native == endian::little ) {
-			return to_little_endian( value );
 		} else {
-			return to_big_endian( value );
+			return endian_details::swap_bytes( value, daw::constant<sizeof( T )>{ } );
 		}
 	}
 } // namespace daw
-- 
2.43.0


From 7a5a3d91e075783b3844aae7ffc7ba57b8c0c57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:40 +0000
Subject: [PATCH 020/248] fix: bit queue push_back/pop_front of the full queue
 width do not shift by the width

---
 include/daw/daw_bit_queues.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_bit_queues.h b/include/daw/daw_bit_queues.h
index 5a8fa6e..9baa030 100644
--- a/include/daw/daw_bit_queues.h
+++ b/include/daw/daw_bit_queues.h
@@ -88,7 +88,8 @@ namespace daw {
 			value &= mask_msb<value_type>(
 			  bit_count_v<value_type> -
 			  bits ); // get_left_mask<value_type>( bit_count_v<value_type> - bits );
-			m_queue <<= bits;
+			m_queue = bits >= capacity( ) ? queue_type{ 0 }
+			                              : static_cast<queue_type>( m_queue << bits );
 			m_queue |= source_to_native_endian( value, BitQueueLSB{ } );
 			m_size += bits;
 		}
@@ -99,7 +100,8 @@ namespace daw {
 			auto const mask = mask_msb<queue_type>( capacity( ) - bits );
 			auto result =
 			  static_cast<value_type>( static_cast<value_type>( m_queue & mask ) );
-			m_queue >>= bits;
+			m_queue = bits >= capacity( ) ? queue_type{ 0 }
+			                              : static_cast<queue_type>( m_queue >> bits );
 			m_size -= bits;
 			return result;
 		}
-- 
2.43.0


From 6d79c6b72b61ee368797d150064151c0feb5e404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:40 +0000
Subject: [PATCH 021/248] fix: bit queue pop_back extracts the bits before
 narrowing to the value type

---
 include/daw/daw_bit_queues.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_bit_queues.h b/include/daw/daw_bit_queues.h
index 9baa030..3bb7d85 100644
--- a/include/daw/daw_bit_queues.h
+++ b/include/daw/daw_bit_queues.h
@@ -109,11 +109,15 @@ namespace daw {
 		[[nodiscard]] constexpr value_type pop_back( size_t const bits ) {
 			daw::exception::dbg_throw_on_false( m_size >= bits,
 			                                    "Not enough bits to pop request" );
-			auto mask = queue_type( ( 1 << bits ) - 1 );
-			mask <<= size( ) - bits;
-			auto result = static_cast<value_type>( m_queue & mask );
-			result >>= size( ) - bits;
-			m_queue = m_queue & ~mask;
+			if( bits == 0 ) {
+				return value_type{ 0 };
+			}
+			auto const mask = mask_msb<queue_type>( capacity( ) - bits );
+			auto const pos = size( ) - bits;
+			auto const result =
+			  static_cast<value_type>( ( m_queue >> pos ) & mask );
+			m_queue &= static_cast<queue_type>(
+			  ~static_cast<queue_type>( mask << pos ) );
 			m_size -= bits;
 			return result;
 		}
-- 
2.43.0


From 3f567338f6964c4aa48a20b92fd849be6f66f0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:40 +0000
Subject: [PATCH 022/248] fix: daw_bit_stream.h compiles: pop_value checks
 against bit_count_v

---
 include/daw/daw_bit_stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_bit_stream.h b/include/daw/daw_bit_stream.h
index 18b719d..aadde35 100644
--- a/include/daw/daw_bit_stream.h
+++ b/include/daw/daw_bit_stream.h
@@ -80,7 +80,7 @@ namespace daw {
 	template<typename T, typename BitStream>
 	auto pop_value( BitStream &bs, size_t bits_needed ) {
 		daw::exception::dbg_throw_on_false(
-		  bits_needed <= bit_count_t<T>,
+		  bits_needed <= bit_count_v<T>,
 		  "Attempt to extra more bits than can fit" );
 
 		using value_type = typename BitStream::value_type;
-- 
2.43.0


From a8744a03f0e049a9d3c8e78f2490960aac6baaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:40 +0000
Subject: [PATCH 023/248] fix: pop_value of a type as wide as the stream
 elements does not shift by the width

---
 include/daw/daw_bit_stream.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_bit_stream.h b/include/daw/daw_bit_stream.h
index aadde35..938ae21 100644
--- a/include/daw/daw_bit_stream.h
+++ b/include/daw/daw_bit_stream.h
@@ -86,7 +86,9 @@ namespace daw {
 		using value_type = typename BitStream::value_type;
 		T result = 0;
 		while( bits_needed >= bit_count_v<value_type> ) {
-			result <<= bit_count_v<value_type>;
+			if constexpr( bit_count_v<T> > bit_count_v<value_type> ) {
+				result <<= bit_count_v<value_type>;
+			}
 			result |= bs.pop_bits( );
 			bits_needed -= bit_count_v<value_type>;
 		}
-- 
2.43.0


From 1a35aa1c85f17e410e32d3c8907dd5ab26d9444e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:40 +0000
Subject: [PATCH 024/248] fix: nibble queue capacity( ) and full( ) can be
 called at run time

---
 include/daw/daw_bit_queues.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_bit_queues.h b/include/daw/daw_bit_queues.h
index 3bb7d85..dc78238 100644
--- a/include/daw/daw_bit_queues.h
+++ b/include/daw/daw_bit_queues.h
@@ -152,7 +152,7 @@ namespace daw {
 		  : m_queue{ std::move( v ) } {}
 
 		[[nodiscard]] constexpr size_t capacity( ) const noexcept {
-			return m_queue.capacity( ) / 4;
+			return basic_bit_queue<queue_type, value_type>::capacity( ) / 4;
 		}
 
 		[[nodiscard]] constexpr size_t size( ) const noexcept {
-- 
2.43.0


From 8933cc7167f447aa61a9bbb9a02e744fa9406293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:40 +0000
Subject: [PATCH 025/248] fix: skip_bits skips the bits beyond the last whole
 element

---
 include/daw/daw_bit_stream.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/daw/daw_bit_stream.h b/include/daw/daw_bit_stream.h
index 938ae21..a348009 100644
--- a/include/daw/daw_bit_stream.h
+++ b/include/daw/daw_bit_stream.h
@@ -112,6 +112,9 @@ namespace daw {
 			bs.pop_bits( );
 			bits_needed -= bit_count_v<value_type>;
 		}
+		if( bits_needed > 0 ) {
+			bs.pop_bits( bits_needed );
+		}
 	}
 
 	template<typename BitStream>
-- 
2.43.0


From a72decce47938f7799ca495477edd9c1b5a912b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:40 +0000
Subject: [PATCH 026/248] fix: skip_until with a bit count compares that many
 bits

---
 include/daw/daw_bit_stream.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_bit_stream.h b/include/daw/daw_bit_stream.h
index a348009..b22db55 100644
--- a/include/daw/daw_bit_stream.h
+++ b/include/daw/daw_bit_stream.h
@@ -130,9 +130,9 @@ namespace daw {
 		daw::exception::dbg_throw_on_true( bit_count < 1,
 		                                   "Attempt to pop less than 1 bits" );
 
-		auto cur_val = pop_value<TestValue>( bs );
+		auto cur_val = pop_value<TestValue>( bs, bit_count );
 		while( bs and cur_val != v ) {
-			cur_val = pop_value<TestValue>( bs );
+			cur_val = pop_value<TestValue>( bs, bit_count );
 		}
 		daw::exception::dbg_throw_on_true( cur_val != v,
 		                                   "Not enough data in stream" );
-- 
2.43.0


From 32b143c534ff44661503e12dfc83addcae89723a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:06 +0000
Subject: [PATCH 027/248] fix: split_buffer push/reserve/move assignment name
 std::max, std::move_iterator and std::bool_constant

---
 include/daw/split_buffer.h | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/daw/split_buffer.h b/include/daw/split_buffer.h
index bde5282..513174d 100644
--- a/include/daw/split_buffer.h
+++ b/include/daw/split_buffer.h
@@ -158,7 +158,7 @@ namespace daw {
 			end_ = c.end_;
 			end_cap( ) = c.end_cap( );
 			move_assign_alloc(
-			  c, bool_constant<
+			  c, std::bool_constant<
 			       alloc_traits::propagate_on_container_move_assignment::value>{ } );
 			c.first_ = nullptr;
 			c.begin_ = nullptr;
@@ -226,8 +226,8 @@ namespace daw {
 		constexpr void reserve( size_type n ) {
 			if( n < capacity( ) ) {
 				auto t = split_buffer<value_type, alloc_rr &>( n, 0, alloc( ) );
-				t.construct_at_end( move_iterator<pointer>( begin_ ),
-				                    move_iterator<pointer>( end_ ) );
+				t.construct_at_end( std::move_iterator<pointer>( begin_ ),
+				                    std::move_iterator<pointer>( end_ ) );
 				std::swap( first_, t.first_ );
 				std::swap( begin_, t.begin_ );
 				std::swap( end_, t.end_ );
@@ -263,7 +263,7 @@ namespace daw {
 					end_ += d;
 				} else {
 					size_type c =
-					  max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
+					  std::max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
 					auto t =
 					  split_buffer<value_type, alloc_rr &>( c, ( c + 3 ) / 4, alloc( ) );
 					t.construct_at_end( std::move_iterator<pointer>( begin_ ),
@@ -287,7 +287,7 @@ namespace daw {
 					begin_ -= d;
 				} else {
 					size_type c =
-					  max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
+					  std::max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
 					auto t = split_buffer<value_type, alloc_rr &>( c, c / 4, alloc( ) );
 					t.construct_at_end( std::move_iterator<pointer>( begin_ ),
 					                    std::move_iterator<pointer>( end_ ) );
@@ -310,7 +310,7 @@ namespace daw {
 					end_ += d;
 				} else {
 					size_type c =
-					  max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
+					  std::max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
 					auto t =
 					  split_buffer<value_type, alloc_rr &>( c, ( c + 3 ) / 4, alloc( ) );
 					t.construct_at_end( std::move_iterator<pointer>( begin_ ),
@@ -335,10 +335,10 @@ namespace daw {
 					begin_ -= d;
 				} else {
 					size_type c =
-					  max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
+					  std::max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
 					auto t = split_buffer<value_type, alloc_rr &>( c, c / 4, alloc( ) );
-					t.construct_at_end( move_iterator<pointer>( begin_ ),
-					                    move_iterator<pointer>( end_ ) );
+					t.construct_at_end( std::move_iterator<pointer>( begin_ ),
+					                    std::move_iterator<pointer>( end_ ) );
 					std::swap( first_, t.first_ );
 					std::swap( begin_, t.begin_ );
 					std::swap( end_, t.end_ );
@@ -362,8 +362,8 @@ namespace daw {
 					size_type c = std::max<size_type>(
 					  2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
 					auto t = split_buffer<value_type, alloc_rr &>( c, c / 4, alloc( ) );
-					t.construct_at_end( move_iterator<pointer>( begin_ ),
-					                    move_iterator<pointer>( end_ ) );
+					t.construct_at_end( std::move_iterator<pointer>( begin_ ),
+					                    std::move_iterator<pointer>( end_ ) );
 					std::swap( first_, t.first_ );
 					std::swap( begin_, t.begin_ );
 					std::swap( end_, t.end_ );
-- 
2.43.0


From 8c31efabba30e4232079005723882ab328552265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:06 +0000
Subject: [PATCH 028/248] fix: split_buffer reserve grows instead of shrinking
 below its contents

---
 include/daw/split_buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/split_buffer.h b/include/daw/split_buffer.h
index 513174d..313901b 100644
--- a/include/daw/split_buffer.h
+++ b/include/daw/split_buffer.h
@@ -224,7 +224,7 @@ namespace daw {
 		}
 
 		constexpr void reserve( size_type n ) {
-			if( n < capacity( ) ) {
+			if( n > capacity( ) ) {
 				auto t = split_buffer<value_type, alloc_rr &>( n, 0, alloc( ) );
 				t.construct_at_end( std::move_iterator<pointer>( begin_ ),
 				                    std::move_iterator<pointer>( end_ ) );
-- 
2.43.0


From f08f4d1a92be2ce2ccefad7d4ef1befa8ec09be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:06 +0000
Subject: [PATCH 029/248] fix: vector emplace with spare capacity builds the
 value it inserts

---
 include/daw/vector.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/daw/vector.h b/include/daw/vector.h
index 3b44ae6..ea340ea 100644
--- a/include/daw/vector.h
+++ b/include/daw/vector.h
@@ -664,10 +664,9 @@ namespace daw {
 				if( p == m_end ) {
 					construct_one_at_end( DAW_FWD( args )... );
 				} else {
-					auto tmp =
-					  temp_value<value_type, Allocator>( alloc( ), DAW_FWD( args )... );
+					auto tmp = value_type( DAW_FWD( args )... );
 					move_range( p, m_end, p + 1 );
-					*p = std::move( tmp.get( ) );
+					*p = std::move( tmp );
 				}
 			} else {
 				allocator_type &a = alloc( );
-- 
2.43.0


From 36a7b3eb39a8998decbbbd21750b47566e74d4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:06 +0000
Subject: [PATCH 030/248] fix: vector resize_and_overwrite does not destroy
 past the end of the elements it had

---
 include/daw/vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/vector.h b/include/daw/vector.h
index ea340ea..25aa9ff 100644
--- a/include/daw/vector.h
+++ b/include/daw/vector.h
@@ -841,7 +841,7 @@ namespace daw {
 			}( );
 			assert( new_size <= n );
 			auto new_end = m_begin + static_cast<difference_type>( new_size );
-			if( new_size < n ) {
+			if( new_end < m_end ) {
 				destruct_at_end( new_end );
 			}
 			m_end = new_end;
@@ -868,7 +868,7 @@ namespace daw {
 			}( );
 			assert( new_size <= n );
 			auto new_end = m_begin + static_cast<difference_type>( new_size );
-			if( new_size < n ) {
+			if( new_end < m_end ) {
 				destruct_at_end( new_end );
 			}
 			m_end = new_end;
-- 
2.43.0


From bafd720add163f8a70f2c6394e0bde53c65a7351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:06 +0000
Subject: [PATCH 031/248] fix: vector block_append_from appends the range it is
 given

---
 include/daw/vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/vector.h b/include/daw/vector.h
index 25aa9ff..e1ccb75 100644
--- a/include/daw/vector.h
+++ b/include/daw/vector.h
@@ -1317,11 +1317,11 @@ namespace daw {
 			v.resize_and_overwrite( cur_size + block_size,
 			                        [&]( T *ptr, std::size_t sz ) {
 				                        ptr += cur_size;
-				                        cur_size += block_size;
 				                        while( cur_size < sz and first != last ) {
-					                        *ptr = *first;
+					                        std::construct_at( ptr, *first );
 					                        ++ptr;
 					                        ++first;
+					                        ++cur_size;
 				                        }
 				                        return cur_size;
 			                        } );
-- 
2.43.0


From fb068f061bcfee1db60e7beb93f92c52c789f884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:06 +0000
Subject: [PATCH 032/248] fix: vector swap compiles

---
 include/daw/vector.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/daw/vector.h b/include/daw/vector.h
index e1ccb75..d20b3f5 100644
--- a/include/daw/vector.h
+++ b/include/daw/vector.h
@@ -926,9 +926,10 @@ namespace daw {
 			std::swap( m_begin, other.m_begin );
 			std::swap( m_end, other.m_end );
 			std::swap( endcap( ), other.endcap( ) );
-			swap_allocator( alloc( ), other.alloc( ),
-			                std::bool_constant<
-			                  alloc_traits::propagate_on_container_swap::value>{ } );
+			si_impl::swap_allocator(
+			  alloc( ), other.alloc( ),
+			  std::bool_constant<
+			    alloc_traits::propagate_on_container_swap::value>{ } );
 		}
 
 	private:
-- 
2.43.0


From 97626b52e2b9d568a68d5ffbdc2b053183ee3298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:06 +0000
Subject: [PATCH 033/248] fix: vector constructors release everything when an
 element constructor throws

---
 include/daw/vector.h | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/include/daw/vector.h b/include/daw/vector.h
index d20b3f5..9640f4d 100644
--- a/include/daw/vector.h
+++ b/include/daw/vector.h
@@ -142,7 +142,8 @@ namespace daw {
 		  noexcept( std::is_nothrow_copy_constructible<allocator_type>::value )
 		  : m_endcap_( nullptr, a ) {}
 
-		explicit constexpr vector( size_type n ) {
+		explicit constexpr vector( size_type n )
+		  : vector( allocator_type( ) ) {
 			if( n == 0 ) {
 				return;
 			}
@@ -151,14 +152,15 @@ namespace daw {
 		}
 
 		explicit constexpr vector( size_type n, allocator_type const &a )
-		  : m_endcap_( nullptr, a ) {
+		  : vector( a ) {
 			if( n > 0 ) {
 				vallocate( n );
 				construct_at_end( n );
 			}
 		}
 
-		explicit constexpr vector( size_type n, value_type const &x ) {
+		explicit constexpr vector( size_type n, value_type const &x )
+		  : vector( allocator_type( ) ) {
 
 			if( n > 0 ) {
 				vallocate( n );
@@ -168,7 +170,7 @@ namespace daw {
 
 		explicit constexpr vector( size_type n, value_type const &x,
 		                           allocator_type const &a )
-		  : m_endcap_( nullptr, a ) {
+		  : vector( a ) {
 
 			if( n > 0 ) {
 				vallocate( n );
@@ -177,7 +179,8 @@ namespace daw {
 		}
 
 		explicit constexpr vector( do_resize_and_overwrite_t, size_type n,
-		                           auto operation ) {
+		                           auto operation )
+		  : vector( allocator_type( ) ) {
 			if( n == 0 ) {
 				return;
 			}
@@ -186,7 +189,7 @@ namespace daw {
 
 		explicit constexpr vector( do_resize_and_overwrite_t, size_type n,
 		                           auto operation, allocator_type const &a )
-		  : m_endcap_( nullptr, a ) {
+		  : vector( a ) {
 			if( n == 0 ) {
 				return;
 			}
@@ -196,7 +199,8 @@ namespace daw {
 		template<input_iterator InputIterator>
 		requires( constructible_from<value_type,
 		                             iter_reference_type<InputIterator>> ) //
-		  explicit constexpr vector( InputIterator first, InputIterator last ) {
+		  explicit constexpr vector( InputIterator first, InputIterator last )
+		  : vector( allocator_type( ) ) {
 
 			DAW_UNSAFE_BUFFER_FUNC_START
 			for( ; first != last; ++first ) {
@@ -210,7 +214,7 @@ namespace daw {
 		                             iter_reference_type<InputIterator>> ) //
 		  explicit constexpr vector( InputIterator first, InputIterator last,
 		                             allocator_type const &a )
-		  : m_endcap_( nullptr, a ) {
+		  : vector( a ) {
 
 			DAW_UNSAFE_BUFFER_FUNC_START
 			for( ; first != last; ++first ) {
@@ -223,7 +227,8 @@ namespace daw {
 		requires( not has_slow_distance_v<ForwardIterator> and
 		          constructible_from<value_type,
 		                             iter_reference_type<ForwardIterator>> ) //
-		  explicit constexpr vector( ForwardIterator first, ForwardIterator last ) {
+		  explicit constexpr vector( ForwardIterator first, ForwardIterator last )
+		  : vector( allocator_type( ) ) {
 
 			auto const n = static_cast<size_type>( std::distance( first, last ) );
 			if( n > 0 ) {
@@ -238,7 +243,7 @@ namespace daw {
 		                             iter_reference_type<ForwardIterator>> ) //
 		  explicit constexpr vector( ForwardIterator first, ForwardIterator last,
 		                             allocator_type const &a )
-		  : m_endcap_( nullptr, a ) {
+		  : vector( a ) {
 			auto const n = static_cast<size_type>( std::distance( first, last ) );
 			if( n > 0 ) {
 				vallocate( n );
@@ -254,8 +259,8 @@ namespace daw {
 		}
 
 		constexpr vector( vector const &x )
-		  : m_endcap_( nullptr, alloc_traits::select_on_container_copy_construction(
-		                          x.alloc( ) ) ) {
+		  : vector( alloc_traits::select_on_container_copy_construction(
+		      x.alloc( ) ) ) {
 
 			size_type const n = x.size( );
 			if( n > 0 ) {
@@ -266,7 +271,7 @@ namespace daw {
 
 		explicit constexpr vector( vector const &x,
 		                           std::type_identity_t<allocator_type> const &a )
-		  : m_endcap_( nullptr, a ) {
+		  : vector( a ) {
 
 			size_type const n = x.size( );
 			if( n > 0 ) {
@@ -285,7 +290,7 @@ namespace daw {
 
 		explicit constexpr vector( std::initializer_list<value_type> il,
 		                           allocator_type const &a )
-		  : m_endcap_( nullptr, a ) {
+		  : vector( a ) {
 
 			if( il.size( ) > 0 ) {
 				vallocate( il.size( ) );
@@ -305,7 +310,7 @@ namespace daw {
 
 		explicit constexpr vector( vector &&x,
 		                           std::type_identity_t<allocator_type> const &a )
-		  : m_endcap_( nullptr, a ) {
+		  : vector( a ) {
 
 			if( a == x.alloc( ) ) {
 				m_begin = x.m_begin;
-- 
2.43.0


From ffdb3faf9ef13913ad8b8ca4ed782b2bfd81b143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:06 +0000
Subject: [PATCH 034/248] fix: split_buffer moves its elements into raw storage
 by construction, not assignment

---
 include/daw/split_buffer.h | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/include/daw/split_buffer.h b/include/daw/split_buffer.h
index 313901b..96cb51f 100644
--- a/include/daw/split_buffer.h
+++ b/include/daw/split_buffer.h
@@ -259,8 +259,7 @@ namespace daw {
 				if( end_ < end_cap( ) ) {
 					difference_type d = end_cap( ) - end_;
 					d = ( d + 1 ) / 2;
-					begin_ = std::move_backward( begin_, end_, end_ + d );
-					end_ += d;
+					slide( d );
 				} else {
 					size_type c =
 					  std::max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
@@ -283,8 +282,7 @@ namespace daw {
 				if( begin_ > first_ ) {
 					difference_type d = begin_ - first_;
 					d = ( d + 1 ) / 2;
-					end_ = std::move( begin_, end_, begin_ - d );
-					begin_ -= d;
+					slide( -d );
 				} else {
 					size_type c =
 					  std::max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
@@ -306,8 +304,7 @@ namespace daw {
 				if( end_ < end_cap( ) ) {
 					difference_type d = end_cap( ) - end_;
 					d = ( d + 1 ) / 2;
-					begin_ = std::move_backward( begin_, end_, end_ + d );
-					end_ += d;
+					slide( d );
 				} else {
 					size_type c =
 					  std::max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
@@ -331,8 +328,7 @@ namespace daw {
 				if( begin_ > first_ ) {
 					difference_type d = begin_ - first_;
 					d = ( d + 1 ) / 2;
-					end_ = std::move( begin_, end_, begin_ - d );
-					begin_ -= d;
+					slide( -d );
 				} else {
 					size_type c =
 					  std::max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
@@ -356,8 +352,7 @@ namespace daw {
 				if( begin_ > first_ ) {
 					difference_type d = begin_ - first_;
 					d = ( d + 1 ) / 2;
-					end_ = std::move( begin_, end_, begin_ - d );
-					begin_ -= d;
+					slide( -d );
 				} else {
 					size_type c = std::max<size_type>(
 					  2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
@@ -501,6 +496,27 @@ namespace daw {
 		}
 
 	private:
+		/// @brief Move the elements d places, the storage they move to/from has no
+		/// other objects in it
+		constexpr void slide( difference_type d ) {
+			auto const relocate = [&]( pointer p ) {
+				alloc_traits::construct( alloc( ), std::to_address( p + d ),
+				                         std::move( *p ) );
+				alloc_traits::destroy( alloc( ), std::to_address( p ) );
+			};
+			if( d > 0 ) {
+				for( pointer p = end_; p != begin_; ) {
+					relocate( --p );
+				}
+			} else {
+				for( pointer p = begin_; p != end_; ++p ) {
+					relocate( p );
+				}
+			}
+			begin_ += d;
+			end_ += d;
+		}
+
 		constexpr void
 		move_assign_alloc( split_buffer &c, std::true_type ) noexcept(
 		  std::is_nothrow_move_assignable_v<allocator_type> ) {
-- 
2.43.0


From 7601ff59cad64073a66247b8ad27bf1752a5d4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:34 +0000
Subject: [PATCH 035/248] fix: bounded_vector has_room reports room when there
 is room

---
 include/daw/daw_bounded_vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index fbaf505..a29bb1d 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -78,7 +78,7 @@ namespace daw {
 		}
 
 		[[nodiscard]] constexpr bool has_room( size_type count ) noexcept {
-			return count + size( ) >= N;
+			return count <= available( );
 		}
 
 		[[nodiscard]] constexpr size_type available( ) const noexcept {
-- 
2.43.0


From 2904596ff1e8b33a368ffbc673c3688701d847fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:34 +0000
Subject: [PATCH 036/248] fix: bounded_vector pop_front removes from the front
 and rejects counts past the size

---
 include/daw/daw_bounded_vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index a29bb1d..3593104 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -271,9 +271,9 @@ namespace daw {
 
 		constexpr void pop_front( size_type const count ) {
 			daw::exception::precondition_check<std::out_of_range>(
-			  m_index <= m_index - count, "Attempt to pop_front past end of stack" );
+			  count <= size( ), "Attempt to pop_front past end of stack" );
 
-			m_index += count;
+			m_first += count;
 		}
 
 		///	take care calling as it is slow
-- 
2.43.0


From ef7b31daec4572e1dd0cda101dde07ad27336bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:34 +0000
Subject: [PATCH 037/248] fix: bounded_vector resize accounts for elements
 popped off the front

---
 include/daw/daw_bounded_vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index 3593104..65d8c26 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -293,10 +293,10 @@ namespace daw {
 					do_move_to_front( );
 				}
 				for( size_type n = size( ); n < count; ++n ) {
-					m_stack[n] = value_type{ };
+					m_stack[m_first + n] = value_type{ };
 				}
 			}
-			m_index = count;
+			m_index = m_first + count;
 		}
 
 		constexpr iterator erase( const_iterator pos ) {
-- 
2.43.0


From 294e9862df8a1d3fa8c89fdf23056cc64a975c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:34 +0000
Subject: [PATCH 038/248] fix: bounded_vector erase returns the element after
 the erased ones and may erase everything

---
 include/daw/daw_bounded_vector.h | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index 65d8c26..18b98e8 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -308,10 +308,7 @@ namespace daw {
 				std::advance( last, 1 );
 			}
 			resize( size( ) - 1 );
-			if( pos == cend( ) ) {
-				return end( );
-			}
-			return std::next( begin( ), std::distance( cbegin( ), pos ) + 1 );
+			return std::next( begin( ), std::distance( cbegin( ), pos ) );
 		}
 
 		constexpr iterator erase( const_iterator first, const_iterator last ) {
@@ -325,14 +322,11 @@ namespace daw {
 			auto const dist = std::distance( first, last );
 
 			daw::exception::dbg_precondition_check<std::out_of_range>(
-			  static_cast<difference_type>( size( ) ) > dist and dist >= 0,
+			  static_cast<difference_type>( size( ) ) >= dist and dist >= 0,
 			  "Attempt to resize past capacity of fix_stack" );
 
 			resize( size( ) - static_cast<size_type>( dist ) );
-			if( last == cend( ) ) {
-				return end( );
-			}
-			return std::next( begin( ), std::distance( cbegin( ), last ) + 1 );
+			return std::next( begin( ), std::distance( cbegin( ), first ) );
 		}
 
 		constexpr void zero( ) noexcept {
-- 
2.43.0


From 3cdf3d01cc58174a78f2f09eca7d210bae2aff36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:34 +0000
Subject: [PATCH 039/248] fix: bounded_vector swap exchanges all elements of
 both

---
 include/daw/daw_bounded_vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index 18b98e8..17a8506 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -338,8 +338,8 @@ namespace daw {
 		constexpr void swap( bounded_vector_t &rhs ) {
 			daw::cswap( m_index, rhs.m_index );
 			daw::cswap( m_first, rhs.m_first );
-			for( std::size_t n = 0; n < size( ); ++n ) {
-				daw::cswap( operator[]( n ), rhs[n] );
+			for( std::size_t n = 0; n < N; ++n ) {
+				daw::cswap( m_stack[n], rhs.m_stack[n] );
 			}
 		}
 	};
-- 
2.43.0


From bcdc7755616fbacea49cb6264ea23057d519b452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:53 +0000
Subject: [PATCH 040/248] fix: read-only span reverse iteration ends at the
 first element

---
 include/daw/daw_span.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_span.h b/include/daw/daw_span.h
index da45637..0a40c94 100644
--- a/include/daw/daw_span.h
+++ b/include/daw/daw_span.h
@@ -111,7 +111,7 @@ namespace daw {
 		}
 
 		constexpr const_reverse_iterator crend( ) const noexcept {
-			return std::make_reverse_iterator( cend( ) );
+			return std::make_reverse_iterator( cbegin( ) );
 		}
 
 		constexpr const_reference operator[]( size_type pos ) const noexcept {
-- 
2.43.0


From 89b3cdb9b2d46a1672b922295187a2a41b6010ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:53 +0000
Subject: [PATCH 041/248] fix: subspan of a const mutable span compiles and
 accepts the position at the end

---
 include/daw/daw_span.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_span.h b/include/daw/daw_span.h
index 0a40c94..2a536b1 100644
--- a/include/daw/daw_span.h
+++ b/include/daw/daw_span.h
@@ -473,11 +473,12 @@ namespace daw {
 			return { data( ) + pos, count };
 		}
 
-		constexpr span subspan( size_type pos = 0,
-		                        size_type count = max_value<size_type> ) const {
+		constexpr span<T const>
+		subspan( size_type pos = 0,
+		         size_type count = max_value<size_type> ) const {
 
 			daw::exception::precondition_check<std::out_of_range>(
-			  pos < size( ), "Attempt to access span past end" );
+			  pos <= size( ), "Attempt to access span past end" );
 
 			count = (daw::min)( count, size( ) - pos );
 			return { data( ) + pos, count };
-- 
2.43.0


From 1d0c68c3646e197fb0d16cd09af8eb982aa6d54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:53 +0000
Subject: [PATCH 042/248] fix: contiguous_view subspan covers count elements
 from the offset

---
 include/daw/daw_contiguous_view.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_contiguous_view.h b/include/daw/daw_contiguous_view.h
index 24e3749..6cd6626 100644
--- a/include/daw/daw_contiguous_view.h
+++ b/include/daw/daw_contiguous_view.h
@@ -89,9 +89,9 @@ namespace daw {
 
 		constexpr contiguous_view
 		subspan( std::size_t offset, std::size_t count = std::size_t( -1 ) ) const {
-			auto const sz =
-			  std::min( { count, size( ) - std::min( { size( ), offset } ) } );
-			return contiguous_view( data( ) + offset, data( ) + sz );
+			offset = std::min( { size( ), offset } );
+			auto const sz = std::min( { count, size( ) - offset } );
+			return contiguous_view( m_first + offset, sz );
 		}
 
 		/// This is potentially unsafe.  Decrements the start of range
@@ -486,8 +486,9 @@ namespace daw {
 
 		constexpr contiguous_view
 		subspan( std::size_t offset, std::size_t count = std::size_t( -1 ) ) const {
-			auto sz = std::min( count, size( ) - std::min( size( ), offset ) );
-			return contiguous_view( data( ) + offset, data( ) + sz );
+			offset = std::min( size( ), offset );
+			auto sz = std::min( count, size( ) - offset );
+			return contiguous_view( data( ) + offset, sz );
 		}
 
 		/// This is potentially unsafe.  Decrements the start of range
-- 
2.43.0


From b18155eed25a8e9fc3c7e44fa16a23c5f8da0743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:53 +0000
Subject: [PATCH 043/248] fix: span_writer subspan compiles

---
 include/daw/daw_span_writer.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_span_writer.h b/include/daw/daw_span_writer.h
index 6a41afb..426e3ce 100644
--- a/include/daw/daw_span_writer.h
+++ b/include/daw/daw_span_writer.h
@@ -156,8 +156,9 @@ namespace daw {
 
 		constexpr span_writer subspan( std::size_t n ) const {
 			daw_ensure( n <= m_size );
-			return span_writer{ .m_first = m_first + static_cast<std::ptrdiff_t>( n ),
-			                    .m_size = m_size - n };
+			auto result = *this;
+			result.remove_prefix_unsafe( n );
+			return result;
 		}
 
 		constexpr span_writer &remove_prefix( std::size_t n ) {
-- 
2.43.0


From a2eb7e090be88cae513af16be0fdf4bdef984242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:53 +0000
Subject: [PATCH 044/248] fix: mutable contiguous_view pop_front_until/while
 with discard compile

---
 include/daw/daw_contiguous_view.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/daw/daw_contiguous_view.h b/include/daw/daw_contiguous_view.h
index 6cd6626..ffaa2d1 100644
--- a/include/daw/daw_contiguous_view.h
+++ b/include/daw/daw_contiguous_view.h
@@ -374,9 +374,9 @@ namespace daw {
 		pop_front_until( const_reference needle, discard_t ) noexcept {
 			auto const f = m_first;
 			remove_prefix_until( needle );
-			auto result = contiguous_view( f, m_first );
+			auto const l = m_first;
 			remove_prefix( );
-			return result;
+			return contiguous_view( f, l );
 		}
 
 		[[nodiscard]] constexpr contiguous_view
@@ -390,9 +390,9 @@ namespace daw {
 		pop_front_while( const_reference needle, discard_t ) noexcept {
 			auto const f = m_first;
 			remove_prefix_while( needle );
-			auto result = contiguous_view( f, m_first );
+			auto const l = m_first;
 			remove_prefix( );
-			return result;
+			return contiguous_view( f, l );
 		}
 
 		[[nodiscard]] friend constexpr bool operator==( contiguous_view const &x,
@@ -751,9 +751,9 @@ namespace daw {
 		pop_front_until( const_reference needle, discard_t ) noexcept {
 			auto const f = m_first;
 			remove_prefix_until( needle );
-			auto result = contiguous_view( f, m_first );
+			auto const l = m_first;
 			remove_prefix( );
-			return result;
+			return contiguous_view( f, l );
 		}
 
 		[[nodiscard]] constexpr contiguous_view
@@ -767,9 +767,9 @@ namespace daw {
 		pop_front_while( const_reference needle, discard_t ) noexcept {
 			auto const f = m_first;
 			remove_prefix_while( needle );
-			auto result = contiguous_view( f, m_first );
+			auto const l = m_first;
 			remove_prefix( );
-			return result;
+			return contiguous_view( f, l );
 		}
 
 		[[nodiscard]] friend constexpr bool operator==( contiguous_view const &x,
-- 
2.43.0


From 1e7542ea1693f3bd196002c7da78f401ef297edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:10 +0000
Subject: [PATCH 045/248] fix: iter_view remove_prefix without clipping may
 remove everything

---
 include/daw/daw_iter_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_iter_view.h b/include/daw/daw_iter_view.h
index c04105a..ff025b6 100644
--- a/include/daw/daw_iter_view.h
+++ b/include/daw/daw_iter_view.h
@@ -207,7 +207,7 @@ namespace daw {
 		}
 
 		constexpr void remove_prefix( size_type count, dont_clip_to_bounds_t ) {
-			assert( count < size( ) );
+			assert( count <= size( ) );
 			std::advance( m_first, static_cast<difference_type>( count ) );
 			m_size -= count;
 		}
-- 
2.43.0


From 47988fabc27eb8bb2192791471a772b15f98dbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:10 +0000
Subject: [PATCH 046/248] fix: iter_view pop_front_until/while with discard
 tolerate a needle that is not found

---
 include/daw/daw_iter_view.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_iter_view.h b/include/daw/daw_iter_view.h
index ff025b6..b7bef34 100644
--- a/include/daw/daw_iter_view.h
+++ b/include/daw/daw_iter_view.h
@@ -338,7 +338,9 @@ namespace daw {
 			auto const f = m_first;
 			remove_prefix_until( needle );
 			auto result = iter_view( f, m_first );
-			remove_prefix( );
+			if( not empty( ) ) {
+				remove_prefix( );
+			}
 			return result;
 		}
 
@@ -354,7 +356,9 @@ namespace daw {
 			auto const f = m_first;
 			remove_prefix_while( needle );
 			auto result = iter_view( f, m_first );
-			remove_prefix( );
+			if( not empty( ) ) {
+				remove_prefix( );
+			}
 			return result;
 		}
 
-- 
2.43.0


From 940630e35fd56cd19759d60030a1369cc17cc829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:10 +0000
Subject: [PATCH 047/248] fix: iter_view subspan covers count elements from the
 offset

---
 include/daw/daw_iter_view.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_iter_view.h b/include/daw/daw_iter_view.h
index b7bef34..7602e25 100644
--- a/include/daw/daw_iter_view.h
+++ b/include/daw/daw_iter_view.h
@@ -107,9 +107,12 @@ namespace daw {
 
 		constexpr iter_view
 		subspan( size_type offset, size_type count = max_value<size_type> ) const {
-			auto const sz = std::min( count, size( ) - std::min( size( ), offset ) );
-			return iter_view( std::next( begin( ), offset ),
-			                  std::next( begin( ), sz ) );
+			auto const start = std::min( size( ), offset );
+			auto const sz = std::min( count, size( ) - start );
+			auto const first =
+			  std::next( begin( ), static_cast<difference_type>( start ) );
+			return iter_view( first,
+			                  std::next( first, static_cast<difference_type>( sz ) ) );
 		}
 
 		constexpr size_type size( ) const {
-- 
2.43.0


From 828d8aa6c0da48cc8e7e5ed5d31bc641d25b7d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:10 +0000
Subject: [PATCH 048/248] fix: ring_adaptor emplace_back adds at the back

---
 include/daw/daw_ring_adaptor.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_ring_adaptor.h b/include/daw/daw_ring_adaptor.h
index 8687bd1..633d0c8 100644
--- a/include/daw/daw_ring_adaptor.h
+++ b/include/daw/daw_ring_adaptor.h
@@ -96,9 +96,9 @@ namespace daw {
 		template<typename... Args>
 		reference emplace_back( Args &&...args ) {
 			assert( not is_full( ) );
-			auto const idx = get_idx( m_head );
-			++m_head;
+			auto const idx = get_idx( m_tail );
 			m_queue[idx] = construct_a<value_type>( DAW_FWD( args )... );
+			++m_tail;
 			return m_queue[idx];
 		}
 
-- 
2.43.0


From e33dfb8c7a9e01ca196d2b8d2397c9d06369e917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:10 +0000
Subject: [PATCH 049/248] fix: indexed_iterator arithmetic can reach the end
 position

---
 include/daw/iterator/daw_indexed_iterator.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/daw/iterator/daw_indexed_iterator.h b/include/daw/iterator/daw_indexed_iterator.h
index 9d44e3c..9c0048f 100644
--- a/include/daw/iterator/daw_indexed_iterator.h
+++ b/include/daw/iterator/daw_indexed_iterator.h
@@ -125,7 +125,7 @@ namespace daw {
 			auto const new_pos = m_position + n;
 			daw::exception::dbg_precondition_check(
 			  new_pos >= 0 &&
-			  new_pos < static_cast<difference_type>( m_pointer->size( ) ) );
+			  new_pos <= static_cast<difference_type>( m_pointer->size( ) ) );
 			auto result =
 			  indexed_iterator( m_pointer, static_cast<size_type>( new_pos ) );
 			return result;
@@ -136,7 +136,7 @@ namespace daw {
 			auto const new_pos = m_position + n;
 			daw::exception::dbg_precondition_check(
 			  new_pos >= 0 &&
-			  new_pos < static_cast<difference_type>( m_pointer->size( ) ) );
+			  new_pos <= static_cast<difference_type>( m_pointer->size( ) ) );
 			auto result =
 			  indexed_iterator( m_pointer, static_cast<size_type>( new_pos ) );
 			return result;
@@ -146,7 +146,7 @@ namespace daw {
 			auto const new_pos = m_position + n;
 			daw::exception::dbg_precondition_check(
 			  new_pos >= 0 &&
-			  new_pos < static_cast<difference_type>( m_pointer->size( ) ) );
+			  new_pos <= static_cast<difference_type>( m_pointer->size( ) ) );
 			m_position = new_pos;
 			return *this;
 		}
@@ -155,7 +155,7 @@ namespace daw {
 			auto const new_pos = m_position - n;
 			daw::exception::dbg_precondition_check(
 			  new_pos >= 0 &&
-			  new_pos < static_cast<difference_type>( m_pointer->size( ) ) );
+			  new_pos <= static_cast<difference_type>( m_pointer->size( ) ) );
 
 			auto result =
 			  indexed_iterator( m_pointer, static_cast<size_type>( new_pos ) );
@@ -167,7 +167,7 @@ namespace daw {
 			auto const new_pos = m_position - n;
 			daw::exception::dbg_precondition_check(
 			  new_pos >= 0 &&
-			  new_pos < static_cast<difference_type>( m_pointer->size( ) ) );
+			  new_pos <= static_cast<difference_type>( m_pointer->size( ) ) );
 			auto result =
 			  indexed_iterator( m_pointer, static_cast<size_type>( new_pos ) );
 			return result;
-- 
2.43.0


From d5932f3e69792db3e97ae5b11a30c822cddf6777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:10 +0000
Subject: [PATCH 050/248] fix: indexed_iterator difference may be negative

---
 include/daw/iterator/daw_indexed_iterator.h | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/include/daw/iterator/daw_indexed_iterator.h b/include/daw/iterator/daw_indexed_iterator.h
index 9c0048f..238e474 100644
--- a/include/daw/iterator/daw_indexed_iterator.h
+++ b/include/daw/iterator/daw_indexed_iterator.h
@@ -197,9 +197,6 @@ namespace daw {
 			daw::exception::dbg_precondition_check( lhs.m_pointer == rhs.m_pointer );
 			daw::exception::dbg_precondition_check( lhs.m_position >= 0 );
 			daw::exception::dbg_precondition_check( rhs.m_position >= 0 );
-			daw::exception::dbg_precondition_check( lhs.m_position >=
-			                                        rhs.m_position );
-
 			return lhs.m_position - rhs.m_position;
 		}
 	}; // indexed_iterator
-- 
2.43.0


From 5f142af733b3918bb30b6ef5823d2ee70bca2fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:14 +0000
Subject: [PATCH 051/248] fix: sort_to sorts negative integers and sorts in
 descending order

---
 include/daw/daw_sort_n.h | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/include/daw/daw_sort_n.h b/include/daw/daw_sort_n.h
index 9ef2158..29366de 100644
--- a/include/daw/daw_sort_n.h
+++ b/include/daw/daw_sort_n.h
@@ -754,31 +754,28 @@ namespace daw {
 			bool const is_ascend =
 			  comp( static_cast<value_t>( 0 ), static_cast<value_t>( 1 ) );
 
+			// the last digit, from the largest to the smallest when descending
+			auto const bucket = [is_ascend]( value_t const &v ) {
+				auto const digit = static_cast<int>( v % 10 );
+				auto const result =
+				  static_cast<std::size_t>( digit < 0 ? -digit : digit );
+				return is_ascend ? result : 9U - result;
+			};
+
 			std::array<std::size_t, 10> counts{ };
 			size_t d = 0;
 			for( auto it = first_in; it != last_in; ++it ) {
-				++counts[static_cast<std::size_t>( ( *it ) % 10 )];
+				++counts[bucket( *it )];
 				++d;
 			}
 			daw::algorithm::partial_sum( std::cbegin( counts ), std::cend( counts ),
 			                             std::begin( counts ) );
 
-			if( is_ascend ) {
-				while( first_in != last_in ) {
-					auto const pos = static_cast<std::size_t>( *first_in % 10 );
-					first_out[counts[pos] - 1U] = *first_in;
-					--counts[pos];
-					++first_in;
-				}
-			} else {
-				auto rf = daw::make_reverse_iterator( first_out + d );
-				auto const rl = daw::make_reverse_iterator( first_out );
-				while( rf != rl ) {
-					auto const pos = static_cast<std::size_t>( *first_in % 10 );
-					rf[counts[pos] - 1U] = *first_in;
-					--counts[pos];
-					++rf;
-				}
+			while( first_in != last_in ) {
+				auto const pos = bucket( *first_in );
+				first_out[counts[pos] - 1U] = *first_in;
+				--counts[pos];
+				++first_in;
 			}
 			return first_out + d;
 		}
-- 
2.43.0


From 8f8beb49492687a44792ea44138e69f3e513f8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:52 +0000
Subject: [PATCH 052/248] fix: are_equal compares every value

---
 include/daw/daw_algorithm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index 81526c5..a1bef0e 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -491,7 +491,7 @@ namespace daw::algorithm {
 
 	template<typename ValueType, typename... Values>
 	constexpr bool are_equal( ValueType v1, ValueType v2, Values... others ) {
-		return are_equal( v1, v2 ) and are_equal( others... );
+		return are_equal( v1, v2 ) and are_equal( v2, others... );
 	}
 
 	template<typename ForwardIterator, typename Predicate>
-- 
2.43.0


From d06d9254bdfaddbd2688604fef640abe98facd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:52 +0000
Subject: [PATCH 053/248] fix: gather compiles

---
 include/daw/daw_algorithm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index a1bef0e..face1b9 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -509,7 +509,7 @@ namespace daw::algorithm {
 
 		auto finish = std::stable_partition( target, last, predicate );
 
-		return std::make_pair( start, finish );
+		return { start, finish };
 	}
 
 	template<typename T>
-- 
2.43.0


From 9f5e89bdbd91ed4f9fe5f9e7b1ea0b4d78376d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:52 +0000
Subject: [PATCH 054/248] fix: split keeps the elements after the last
 separator

---
 include/daw/daw_algorithm.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index face1b9..9011a7a 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -590,6 +590,7 @@ namespace daw::algorithm {
 				temp.push_back( *it );
 			}
 		}
+		result.push_back( std::move( temp ) );
 		return result;
 	}
 
-- 
2.43.0


From c83654cc88f5e8b04e1998483910c4a52eb14647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:52 +0000
Subject: [PATCH 055/248] fix: transform_n accepts operations that take the
 position

---
 include/daw/daw_algorithm.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index 9011a7a..70cf298 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -1017,8 +1017,11 @@ namespace daw::algorithm {
 	         typename UnaryOperation>
 	constexpr auto transform_n(
 	  InputIterator first, OutputIterator first_out, size_t count,
-	  UnaryOperation unary_op ) noexcept( noexcept( *first_out =
-	                                                  unary_op( *first ) ) ) {
+	  UnaryOperation
+	    unary_op ) noexcept( std::is_nothrow_invocable_v<UnaryOperation,
+	                                                     decltype( *first )> or
+	                         std::is_nothrow_invocable_v<
+	                           UnaryOperation, decltype( *first ), size_t> ) {
 
 		traits::is_input_iterator_test<InputIterator>( );
 		static_assert(
@@ -1028,10 +1031,9 @@ namespace daw::algorithm {
 		  "dereferenced type of first or with an addditional argument of "
 		  "size_t" );
 
-		traits::is_output_iterator_test<OutputIterator,
-		                                decltype( unary_op( *first ) )>( );
-
 		if constexpr( std::is_invocable_v<UnaryOperation, decltype( *first )> ) {
+			traits::is_output_iterator_test<OutputIterator,
+			                                decltype( unary_op( *first ) )>( );
 			while( count-- > 0 ) {
 				*first_out = unary_op( *first );
 				++first;
@@ -1039,7 +1041,7 @@ namespace daw::algorithm {
 			}
 		} else {
 			for( size_t n = 0U; n < count; ++n, ++first, ++first_out ) {
-				*first_out = *unary_op( *first, n );
+				*first_out = unary_op( *first, n );
 			}
 		}
 		struct result_t {
-- 
2.43.0


From ec3a2c0ac320ada7e4ccca4204e583f154dbba37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:52 +0000
Subject: [PATCH 056/248] fix: swap_ranges swaps the elements the iterators
 refer to

---
 include/daw/daw_swap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_swap.h b/include/daw/daw_swap.h
index 65f24fe..012f69d 100644
--- a/include/daw/daw_swap.h
+++ b/include/daw/daw_swap.h
@@ -80,7 +80,7 @@ namespace daw {
 	  ForwardIterator2 first2 ) noexcept( noexcept( daw::iter_swap( first1,
 	                                                                first2 ) ) ) {
 		while( first1 != last1 ) {
-			daw::iter_swap( *first1, *first2 );
+			daw::iter_swap( first1, first2 );
 			++first1;
 			++first2;
 		}
-- 
2.43.0


From 29e3b9d08b489d6ea9aaac6a98714df9a5b45852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:52 +0000
Subject: [PATCH 057/248] fix: convert_copy and convert_copy_n return the end
 of the output

---
 include/daw/daw_algorithm.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index 70cf298..6c18455 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -2128,13 +2128,14 @@ namespace daw::algorithm {
 
 	template<typename T, typename Iterator, typename IteratorLast,
 	         typename OutputIterator>
-	constexpr OutputIterator convert_copy( Iterator first, Iterator last,
+	constexpr OutputIterator convert_copy( Iterator first, IteratorLast last,
 	                                       OutputIterator out_first ) {
 		while( first != last ) {
 			*out_first = static_cast<T>( *first );
 			++out_first;
 			++first;
 		}
+		return out_first;
 	}
 
 	template<typename T, typename Iterator, typename OutputIterator>
@@ -2146,6 +2147,7 @@ namespace daw::algorithm {
 			++out_first;
 			++first;
 		}
+		return out_first;
 	}
 } // namespace daw::algorithm
 
-- 
2.43.0


From 12969d25695936e970d0b4716bdf1560bf200477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:52 +0000
Subject: [PATCH 058/248] fix: extract_matching moves each matching node once

---
 include/daw/daw_algorithm.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index 6c18455..7f7e8d1 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -1913,11 +1913,11 @@ namespace daw::algorithm {
 		auto it = std::begin( from );
 		while( it != std::end( from ) ) {
 			if( daw::invoke( pred, *it ) ) {
-				// Iterator is invalidated inside extract_to,
-				// incrementing here ensures that we do not have an
-				// iterator to the current item
-				extract_to( from, to, it );
+				// Iterator is invalidated by extract, incrementing here ensures
+				// that we do not have an iterator to the current item
+				auto const current = it;
 				++it;
+				to.insert( from.extract( current ) );
 			} else {
 				++it;
 			}
-- 
2.43.0


From 328bf86bc4cd4f0ca6e177431bfd56758131e818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:52 +0000
Subject: [PATCH 059/248] fix: rotate with nothing after the middle is a no-op

---
 include/daw/daw_algorithm_cx.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/daw/daw_algorithm_cx.h b/include/daw/daw_algorithm_cx.h
index 54fcab9..d82c1bf 100644
--- a/include/daw/daw_algorithm_cx.h
+++ b/include/daw/daw_algorithm_cx.h
@@ -30,6 +30,9 @@ namespace daw::algorithm {
 		traits::is_forward_access_iterator_test<ForwardIterator>( );
 		traits::is_inout_iterator_test<ForwardIterator>( );
 
+		if( middle == last ) {
+			return;
+		}
 		ForwardIterator tmp = middle;
 		while( first != tmp ) {
 			daw::cswap( *first, *tmp );
-- 
2.43.0


From 2b4df18535053846928845f177b5fa745aa07c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:52 +0000
Subject: [PATCH 060/248] fix: slide compiles

---
 include/daw/daw_algorithm_cx.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_algorithm_cx.h b/include/daw/daw_algorithm_cx.h
index d82c1bf..0da915c 100644
--- a/include/daw/daw_algorithm_cx.h
+++ b/include/daw/daw_algorithm_cx.h
@@ -54,13 +54,17 @@ namespace daw::algorithm {
 		traits::is_input_iterator_test<ForwardIterator>( );
 
 		if( target < first ) {
-			return std::make_pair( target,
-			                       daw::algorithm::rotate( target, first, last ) );
+			auto const target_last =
+			  daw::next( target, daw::distance( first, last ) );
+			daw::algorithm::rotate( target, first, last );
+			return std::make_pair( target, target_last );
 		}
 
 		if( last < target ) {
-			return std::make_pair( daw::algorithm::rotate( first, last, target ),
-			                       target );
+			auto const target_first =
+			  daw::next( first, daw::distance( last, target ) );
+			daw::algorithm::rotate( first, last, target );
+			return std::make_pair( target_first, target );
 		}
 
 		return std::make_pair( first, last );
-- 
2.43.0


From d7ed59eb10ef246a7673859ec0070263bef53d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:52 +0000
Subject: [PATCH 061/248] fix: nth_element places the nth element and keeps
 every value

---
 include/daw/daw_algorithm_cx.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_algorithm_cx.h b/include/daw/daw_algorithm_cx.h
index 0da915c..8820ca9 100644
--- a/include/daw/daw_algorithm_cx.h
+++ b/include/daw/daw_algorithm_cx.h
@@ -85,16 +85,22 @@ namespace daw::algorithm {
 		if( not( first != last ) ) {
 			return;
 		}
-		while( first != nth ) {
+		if( not( nth != last ) ) {
+			return;
+		}
+		while( true ) {
 			auto min_idx = first;
 			auto j = daw::next( first );
 			while( j != last ) {
 				if( daw::invoke( comp, *j, *min_idx ) ) {
 					min_idx = j;
-					daw::cswap( *first, *min_idx );
 				}
 				++j;
 			}
+			daw::cswap( *first, *min_idx );
+			if( not( first != nth ) ) {
+				break;
+			}
 			++first;
 		}
 	}
-- 
2.43.0


From 265f44bc1e54ce94fd8b7b36e6c2d6d01b95141d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:52 +0000
Subject: [PATCH 062/248] fix: container max_element without a comparison can
 be called

---
 include/daw/daw_container_algorithm.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_container_algorithm.h b/include/daw/daw_container_algorithm.h
index 4b91a88..5bc12af 100644
--- a/include/daw/daw_container_algorithm.h
+++ b/include/daw/daw_container_algorithm.h
@@ -328,7 +328,7 @@ namespace daw::container {
 		                unary_operator );
 	}
 
-	template<typename Container, typename UnaryOperator,
+	template<typename Container,
 	         std::enable_if_t<daw::traits::is_container_like_v<Container>,
 	                          std::nullptr_t> = nullptr>
 	constexpr decltype( auto ) max_element( Container &container ) noexcept(
@@ -339,7 +339,7 @@ namespace daw::container {
 		                                    std::cend( container ) );
 	}
 
-	template<typename Container, typename OutputIterator, typename UnaryOperator,
+	template<typename Container,
 	         std::enable_if_t<daw::traits::is_container_like_v<Container>,
 	                          std::nullptr_t> = nullptr>
 	constexpr decltype( auto ) max_element( Container const &container ) noexcept(
-- 
2.43.0


From d1dbed2cd176040c5549c0cdf4d3fe7127ac29ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:52 +0000
Subject: [PATCH 063/248] fix: safe_advance works with iterators that are not
 random access

---
 include/daw/daw_algorithm.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index 7f7e8d1..f6c7bcc 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -88,7 +88,7 @@ namespace daw {
 		template<typename Iterator, typename Iterator2, typename Iterator3,
 		         typename Distance,
 		         daw::enable_when_t<
-		           not traits::is_random_access_iterator<Iterator>> = nullptr>
+		           not traits::is_random_access_iterator_v<Iterator>> = nullptr>
 		constexpr void safe_advance_impl( Iterator2 const first, Iterator &it,
 		                                  Iterator3 const last,
 		                                  Distance dist ) noexcept {
@@ -103,7 +103,7 @@ namespace daw {
 		template<
 		  typename Iterator, typename Iterator2, typename Iterator3,
 		  typename Distance,
-		  daw::enable_when_t<traits::is_random_access_iterator<Iterator>> = nullptr>
+		  daw::enable_when_t<traits::is_random_access_iterator_v<Iterator>> = nullptr>
 		constexpr void safe_advance_impl( Iterator2 const first, Iterator &it,
 		                                  Iterator3 const last,
 		                                  Distance dist ) noexcept {
-- 
2.43.0


From 86e13ddec961e05e057f3039ceadc5463e7406a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:52 +0000
Subject: [PATCH 064/248] fix: partition and none_of do not find std algorithms
 by argument dependent lookup

---
 include/daw/daw_algorithm.h    | 2 +-
 include/daw/daw_algorithm_cx.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index f6c7bcc..8812788 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -1935,7 +1935,7 @@ namespace daw::algorithm {
 	}
 	template<class InputIt, class UnaryPredicate>
 	constexpr bool none_of( InputIt first, InputIt last, UnaryPredicate &&p ) {
-		return find_if( first, last, DAW_FWD( p ) ) == last;
+		return daw::algorithm::find_if( first, last, DAW_FWD( p ) ) == last;
 	}
 
 	template<size_t MinSize = 1, typename BidirectionalIterator>
diff --git a/include/daw/daw_algorithm_cx.h b/include/daw/daw_algorithm_cx.h
index 8820ca9..ab45b4d 100644
--- a/include/daw/daw_algorithm_cx.h
+++ b/include/daw/daw_algorithm_cx.h
@@ -114,7 +114,7 @@ namespace daw::algorithm {
 		traits::is_input_iterator_test<ForwardIterator>( );
 		traits::is_unary_predicate_test<UnaryPredicate, decltype( *first )>( );
 
-		first = find_if_not( first, last, unary_predicate );
+		first = daw::algorithm::find_if_not( first, last, unary_predicate );
 		if( first == last ) {
 			return first;
 		}
-- 
2.43.0


From 41585c287642a7cfa931bfcd0c5188206e61c873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:52 +0000
Subject: [PATCH 065/248] fix: container transform accepts any assignable
 output and returns the end of it

---
 include/daw/daw_container_algorithm.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_container_algorithm.h b/include/daw/daw_container_algorithm.h
index 5bc12af..c63cd87 100644
--- a/include/daw/daw_container_algorithm.h
+++ b/include/daw/daw_container_algorithm.h
@@ -299,9 +299,9 @@ namespace daw::container {
 		  std::is_invocable_v<UnaryOperator, decltype( *std::cbegin( container ) )>,
 		  "UnaryOperator is not callable with the values stored in Container" );
 
-		static_assert( std::is_convertible_v<decltype( unary_operator(
-		                                       *std::cbegin( container ) ) ),
-		                                     decltype( *first_out )>,
+		static_assert( std::is_assignable_v<decltype( *first_out ),
+		                                    decltype( unary_operator(
+		                                      *std::cbegin( container ) ) )>,
 		               "Output of UnaryOperator cannot be assigned to *first_out" );
 
 		return std::transform( std::cbegin( container ), std::cend( container ),
@@ -324,8 +324,8 @@ namespace daw::container {
 		  std::is_invocable_v<UnaryOperator, decltype( *std::cbegin( container ) )>,
 		  "UnaryOperator is not callable with the values stored in Container" );
 
-		std::transform( std::cbegin( container ), std::cend( container ), first_out,
-		                unary_operator );
+		return std::transform( std::cbegin( container ), std::cend( container ),
+		                       first_out, unary_operator );
 	}
 
 	template<typename Container,
-- 
2.43.0


From eafa7568ae894a02d8c30b878a2fc291f559e9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:28 +0000
Subject: [PATCH 066/248] fix: expected_from_code with a named result type
 keeps the result of the call

---
 include/daw/daw_expected.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_expected.h b/include/daw/daw_expected.h
index af3262f..db82984 100644
--- a/include/daw/daw_expected.h
+++ b/include/daw/daw_expected.h
@@ -408,9 +408,8 @@ namespace daw {
 		  daw::traits::is_callable_convertible_v<Result, Function, Args...>,
 		  "Must be able to convert result of func to expected result type" );
 
-		auto result = expected_t<Result>( );
-		result.from_code( DAW_FWD( func ), DAW_FWD( args )... );
-		return result;
+		return expected_t<Result>::from_code( DAW_FWD( func ),
+		                                      DAW_FWD( args )... );
 	}
 
 	template<typename Function, typename... Args>
-- 
2.43.0


From 7362bcaeca9ff2a5f63b960361e38878545c1a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:28 +0000
Subject: [PATCH 067/248] fix: optional::operator-> compiles and returns the
 address of the value

---
 include/daw/daw_optional.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_optional.h b/include/daw/daw_optional.h
index 5e2c5a5..d5512db 100644
--- a/include/daw/daw_optional.h
+++ b/include/daw/daw_optional.h
@@ -59,11 +59,11 @@ namespace daw {
 		}
 
 		[[nodiscard]] constexpr pointer operator->( ) noexcept {
-			return &m_value.operator->( );
+			return m_value.operator->( );
 		}
 
 		[[nodiscard]] constexpr const_pointer operator->( ) const noexcept {
-			return &m_value.operator->( );
+			return m_value.operator->( );
 		}
 
 		void swap( optional &other ) noexcept(
-- 
2.43.0


From 7685af549cbd4c152b9ded5308e33f409ef18ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:28 +0000
Subject: [PATCH 068/248] fix: optional: nullopt >= o and value >= o follow the
 ordering

---
 include/daw/daw_optional.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_optional.h b/include/daw/daw_optional.h
index d5512db..701207b 100644
--- a/include/daw/daw_optional.h
+++ b/include/daw/daw_optional.h
@@ -375,7 +375,7 @@ namespace daw {
 
 	template<typename T>
 	constexpr bool operator>=( std::nullopt_t, optional<T> const &opt ) noexcept {
-		return static_cast<bool>( opt );
+		return not static_cast<bool>( opt );
 	}
 
 	template<typename T, typename U>
@@ -469,7 +469,7 @@ namespace daw {
 	template<typename T, typename U>
 	constexpr bool operator>=( const T &value, const optional<U> &opt ) {
 		if( opt ) {
-			return *opt > value;
+			return value >= *opt;
 		}
 		return true;
 	}
-- 
2.43.0


From edf2a45c79885dc98a6fd12df2e527263c1bfd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:28 +0000
Subject: [PATCH 069/248] fix: optional_poly: assigning a derived value does
 not slice it

---
 include/daw/deprecated/daw_optional_poly.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/deprecated/daw_optional_poly.h b/include/daw/deprecated/daw_optional_poly.h
index 0b3e997..7715590 100644
--- a/include/daw/deprecated/daw_optional_poly.h
+++ b/include/daw/deprecated/daw_optional_poly.h
@@ -117,7 +117,7 @@ namespace daw {
 		                            std::is_same<value_type, T>::value ),
 		                          std::nullptr_t> = nullptr>
 		optional_poly &operator=( T const &value ) {
-			m_value.reset( new value_type{ value } );
+			m_value.reset( new std::decay_t<T>{ value } );
 			return *this;
 		}
 
-- 
2.43.0


From 85fbdb5ccf8789e670993323e6ff1d84e3dcb22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:28 +0000
Subject: [PATCH 070/248] fix: optional_poly: move assignment from the optional
 of a derived type compiles

---
 include/daw/deprecated/daw_optional_poly.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/daw/deprecated/daw_optional_poly.h b/include/daw/deprecated/daw_optional_poly.h
index 7715590..ebcaead 100644
--- a/include/daw/deprecated/daw_optional_poly.h
+++ b/include/daw/deprecated/daw_optional_poly.h
@@ -106,9 +106,7 @@ namespace daw {
 		                            std::is_same<value_type, T>::value ),
 		                          std::nullptr_t> = nullptr>
 		optional_poly &operator=( optional_poly<T> &&rhs ) {
-			if( this != static_cast<optional_poly *>( &rhs ) ) {
-				m_value.reset( rhs.m_value.release( ) );
-			}
+			m_value.reset( rhs.m_value.release( ) );
 			return *this;
 		}
 
-- 
2.43.0


From 5092f5d80b7f33c1a5332616e3e7bc925080821a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:28 +0000
Subject: [PATCH 071/248] fix: optional_poly: two empty optionals compare equal
 in < and >=

---
 include/daw/deprecated/daw_optional_poly.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/deprecated/daw_optional_poly.h b/include/daw/deprecated/daw_optional_poly.h
index ebcaead..b9acd3f 100644
--- a/include/daw/deprecated/daw_optional_poly.h
+++ b/include/daw/deprecated/daw_optional_poly.h
@@ -209,7 +209,7 @@ namespace daw {
 			}
 			return false;
 		}
-		return true;
+		return static_cast<bool>( rhs );
 	}
 
 	template<typename T>
@@ -245,7 +245,7 @@ namespace daw {
 			}
 			return true;
 		}
-		return false;
+		return not static_cast<bool>( rhs );
 	}
 
 } // namespace daw
-- 
2.43.0


From 41c7da03fcc222583a5b7d50343fbd50b9a79dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:28 +0000
Subject: [PATCH 072/248] fix: checked_expected_t<void>: copies and callables
 are not taken for a value, assignment replaces the exception

---
 include/daw/deprecated/daw_checked_expected.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/daw/deprecated/daw_checked_expected.h b/include/daw/deprecated/daw_checked_expected.h
index 527f937..22eb324 100644
--- a/include/daw/deprecated/daw_checked_expected.h
+++ b/include/daw/deprecated/daw_checked_expected.h
@@ -245,9 +245,7 @@ namespace daw {
 		}
 		checked_expected_t &operator=( checked_expected_t const &rhs ) {
 			if( this != &rhs ) {
-				if( rhs.m_exception ) {
-					m_exception = rhs.m_exception;
-				}
+				m_exception = rhs.m_exception;
 				m_value = rhs.m_value;
 			}
 			return *this;
@@ -268,7 +266,11 @@ namespace daw {
 		checked_expected_t( ) noexcept
 		  : checked_expected_t{ false } {}
 
-		template<typename T>
+		template<typename T,
+		         std::enable_if_t<
+		           not std::is_same_v<daw::remove_cvref_t<T>, checked_expected_t> and
+		             not std::is_invocable_v<T>,
+		           std::nullptr_t> = nullptr>
 		checked_expected_t( T && ) noexcept
 		  : checked_expected_t{ true } {}
 
-- 
2.43.0


From b4ff132d47d2e723f05b8f64a30b5ee53ce0ce5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:28 +0000
Subject: [PATCH 073/248] fix: expected captures exceptions when only its own
 header is included

---
 include/daw/daw_expected.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/daw/daw_expected.h b/include/daw/daw_expected.h
index db82984..bbd7131 100644
--- a/include/daw/daw_expected.h
+++ b/include/daw/daw_expected.h
@@ -11,6 +11,7 @@
 #include "ciso646.h"
 #include "daw_assume.h"
 #include "daw_attributes.h"
+#include "daw_check_exceptions.h"
 #include "daw_move.h"
 #include "impl/daw_traits_impl.h"
 #include "traits/daw_traits_concepts.h"
-- 
2.43.0


From c9d9d6693e553e66267475defb88754c97a0334a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:28 +0000
Subject: [PATCH 074/248] fix: unique_ptr and maybe_unique_ptr: a <= b means
 not b < a

---
 include/daw/daw_maybe_unique_ptr.h | 2 +-
 include/daw/daw_unique_ptr.h       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_maybe_unique_ptr.h b/include/daw/daw_maybe_unique_ptr.h
index a42ff11..a209b47 100644
--- a/include/daw/daw_maybe_unique_ptr.h
+++ b/include/daw/daw_maybe_unique_ptr.h
@@ -295,7 +295,7 @@ namespace daw {
 	template<typename T, typename D0, typename D1 = D0>
 	constexpr bool operator<=( maybe_unique_ptr<T, D0> const &lhs,
 	                           maybe_unique_ptr<T, D1> const &rhs ) noexcept {
-		return not( lhs < rhs );
+		return not( rhs < lhs );
 	}
 
 	template<typename T, typename D0, typename D1 = D0>
diff --git a/include/daw/daw_unique_ptr.h b/include/daw/daw_unique_ptr.h
index 8cef944..ea9e72c 100644
--- a/include/daw/daw_unique_ptr.h
+++ b/include/daw/daw_unique_ptr.h
@@ -460,7 +460,7 @@ namespace daw {
 	template<typename T, typename D0, typename D1 = D0>
 	constexpr bool operator<=( unique_ptr<T, D0> const &lhs,
 	                           unique_ptr<T, D1> const &rhs ) noexcept {
-		return not( lhs < rhs );
+		return not( rhs < lhs );
 	}
 
 	template<typename T, typename D0, typename D1 = D0>
-- 
2.43.0


From f6dcef7f7684b6bd82aac3d7c432c5663300aaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:28 +0000
Subject: [PATCH 075/248] fix: unique_ptr: moving takes the deleter along and
 destroys the old object last

---
 include/daw/daw_unique_ptr.h | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/include/daw/daw_unique_ptr.h b/include/daw/daw_unique_ptr.h
index ea9e72c..eaae825 100644
--- a/include/daw/daw_unique_ptr.h
+++ b/include/daw/daw_unique_ptr.h
@@ -130,7 +130,8 @@ namespace daw {
 		constexpr unique_ptr( std::nullptr_t ) noexcept {}
 
 		constexpr unique_ptr( unique_ptr &&other ) noexcept
-		  : m_ptr( other.release( ) ) {}
+		  : Deleter( std::move( other.get_deleter( ) ) )
+		  , m_ptr( other.release( ) ) {}
 
 		template<
 		  typename U, typename D,
@@ -145,8 +146,8 @@ namespace daw {
 
 		constexpr unique_ptr &operator=( unique_ptr &&rhs ) noexcept {
 			if( this != &rhs ) {
-				reset( );
-				m_ptr = rhs.release( );
+				unique_ptr tmp( std::move( rhs ) );
+				swap( tmp );
 			}
 			return *this;
 		}
@@ -157,10 +158,8 @@ namespace daw {
 			static_assert( unique_ptr_details::is_safe_child_type_v<T, U>,
 			               "One cannot destruct U, if T does not have a virtual "
 			               "destructor, and U being a child of T" );
-			if( this != &rhs ) {
-				reset( );
-				m_ptr = rhs.release( );
-			}
+			unique_ptr tmp( std::move( rhs ) );
+			swap( tmp );
 			return *this;
 		}
 
@@ -200,8 +199,10 @@ namespace daw {
 		}
 
 		constexpr void reset( pointer p ) noexcept {
-			reset( );
-			m_ptr = std::move( p );
+			auto old = daw::exchange( m_ptr, std::move( p ) );
+			if( unique_ptr_del::does_validity_check_v<Deleter> or old ) {
+				get_deleter( )( old );
+			}
 		}
 
 		constexpr pointer get( ) const {
@@ -226,6 +227,7 @@ namespace daw {
 
 		constexpr void swap( unique_ptr &other ) noexcept {
 			using std::swap;
+			swap( get_deleter( ), other.get_deleter( ) );
 			swap( m_ptr, other.m_ptr );
 		}
 
@@ -287,7 +289,8 @@ namespace daw {
 		constexpr unique_ptr( std::nullptr_t ) noexcept {}
 
 		constexpr unique_ptr( unique_ptr &&other ) noexcept
-		  : m_ptr( other.release( ) ) {}
+		  : Deleter( std::move( other.get_deleter( ) ) )
+		  , m_ptr( other.release( ) ) {}
 
 		template<typename U, std::enable_if_t<not std::is_same_v<T, U>,
 		                                      std::nullptr_t> = nullptr>
@@ -300,8 +303,8 @@ namespace daw {
 
 		constexpr unique_ptr &operator=( unique_ptr &&rhs ) noexcept {
 			if( this != &rhs ) {
-				reset( );
-				m_ptr = rhs.release( );
+				unique_ptr tmp( std::move( rhs ) );
+				swap( tmp );
 			}
 			return *this;
 		}
@@ -312,10 +315,8 @@ namespace daw {
 			static_assert( unique_ptr_details::is_safe_child_type_v<T, U>,
 			               "One cannot destruct U, if T does not have a virtual "
 			               "destructor, and U being a child of T" );
-			if( this != &rhs ) {
-				reset( );
-				m_ptr = rhs.release( );
-			}
+			unique_ptr tmp( std::move( rhs ) );
+			swap( tmp );
 			return *this;
 		}
 
@@ -364,6 +365,7 @@ namespace daw {
 
 		constexpr void swap( unique_ptr &other ) noexcept {
 			using std::swap;
+			swap( get_deleter( ), other.get_deleter( ) );
 			swap( m_ptr, other.m_ptr );
 		}
 
-- 
2.43.0


From 8ab72a21b6f1ce845a0ced948f354d15338bed9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:28 +0000
Subject: [PATCH 076/248] fix: maybe_unique_ptr: moving keeps the ownership
 flag and never frees what is not owned

---
 include/daw/daw_maybe_unique_ptr.h | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/include/daw/daw_maybe_unique_ptr.h b/include/daw/daw_maybe_unique_ptr.h
index a209b47..dc92ad4 100644
--- a/include/daw/daw_maybe_unique_ptr.h
+++ b/include/daw/daw_maybe_unique_ptr.h
@@ -72,14 +72,14 @@ namespace daw {
 		constexpr maybe_unique_ptr( std::nullptr_t ) noexcept {}
 
 		constexpr maybe_unique_ptr( maybe_unique_ptr &&other ) noexcept
-		  : m_ptr( other.release( ) )
+		  : m_ptr( std::move( other.m_ptr ) )
 		  , m_owned( std::exchange( other.m_owned, true ) ) {}
 
 		template<typename U, typename D>
 		requires( not std::is_same_v<T, U> ) //
 		  constexpr maybe_unique_ptr( maybe_unique_ptr<U, D> &&other ) noexcept
 		  : Deleter( static_cast<D &&>( other ) )
-		  , m_ptr( other.release( ) )
+		  , m_ptr( other.m_ptr.release( ) )
 		  , m_owned( std::exchange( other.m_owned, true ) ) {
 			static_assert( unique_ptr_details::is_safe_child_type_v<T, U>,
 			               "One cannot destruct U, if T does not have a virtual "
@@ -98,9 +98,8 @@ namespace daw {
 
 		constexpr maybe_unique_ptr &operator=( maybe_unique_ptr &&rhs ) noexcept {
 			if( this != &rhs ) {
-				reset( );
-				m_ptr = rhs.release( );
-				m_owned = std::exchange( rhs.m_owned, true );
+				maybe_unique_ptr tmp( std::move( rhs ) );
+				swap( tmp );
 			}
 			return *this;
 		}
@@ -112,8 +111,8 @@ namespace daw {
 			static_assert( unique_ptr_details::is_safe_child_type_v<T, U>,
 			               "One cannot destruct U, if T does not have a virtual "
 			               "destructor, and U being a child of T" );
-			m_ptr = std::move( rhs.m_ptr );
-			m_owned = std::exchange( rhs.m_owned, true );
+			maybe_unique_ptr tmp( std::move( rhs ) );
+			swap( tmp );
 			return *this;
 		}
 
@@ -123,8 +122,8 @@ namespace daw {
 			static_assert( unique_ptr_details::is_safe_child_type_v<T, U>,
 			               "One cannot destruct U, if T does not have a virtual "
 			               "destructor, and U being a child of T" );
-			m_ptr = std::move( rhs );
-			m_owned = std::exchange( rhs.m_owned, true );
+			maybe_unique_ptr tmp( std::move( rhs ) );
+			swap( tmp );
 			return *this;
 		}
 
-- 
2.43.0


From 6b98058308812d6bcc3a03a954eff39eb0a0df62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:28 +0000
Subject: [PATCH 077/248] fix: maybe_unique_ptr::reset( p ) keeps the new
 pointer alive

---
 include/daw/daw_maybe_unique_ptr.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_maybe_unique_ptr.h b/include/daw/daw_maybe_unique_ptr.h
index dc92ad4..60dbb08 100644
--- a/include/daw/daw_maybe_unique_ptr.h
+++ b/include/daw/daw_maybe_unique_ptr.h
@@ -165,13 +165,11 @@ namespace daw {
 		}
 
 		constexpr void reset( pointer p, bool owned = true ) noexcept {
-			if( m_owned ) {
-				m_ptr.reset( std::move( p ) );
-			} else {
+			if( not m_owned ) {
 				(void)m_ptr.release( );
 			}
-			m_ptr.reset( std::move( p ) );
 			m_owned = owned;
+			m_ptr.reset( std::move( p ) );
 		}
 
 		constexpr pointer get( ) const {
-- 
2.43.0


From bcbec7c50f039fb3eb8ca9616799bc44032e73a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:28 +0000
Subject: [PATCH 078/248] fix: rc_ptr: reset of a shared pointer lets go of it,
 assignment from empty empties

---
 include/daw/daw_ref_counted_pointer.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/daw/daw_ref_counted_pointer.h b/include/daw/daw_ref_counted_pointer.h
index e9dd2bc..85166bc 100644
--- a/include/daw/daw_ref_counted_pointer.h
+++ b/include/daw/daw_ref_counted_pointer.h
@@ -136,9 +136,9 @@ namespace daw {
 				return;
 			}
 			assert( m_ref_count );
-			if( --ref_count( ) == 0 ) {
-				auto old_ptr = daw::exchange( m_pointer, nullptr );
-				auto old_ref = daw::exchange( m_ref_count, nullptr );
+			auto old_ptr = daw::exchange( m_pointer, nullptr );
+			auto old_ref = daw::exchange( m_ref_count, nullptr );
+			if( --( *old_ref ) == 0 ) {
 				delete old_ref;
 				Deleter{ }( old_ptr );
 			}
@@ -309,9 +309,9 @@ namespace daw {
 				return;
 			}
 			assert( m_ref_count );
-			if( --ref_count( ) == 0 ) {
-				auto *old_ptr = daw::exchange( m_pointer, nullptr );
-				auto *old_ref = daw::exchange( m_ref_count, nullptr );
+			auto *old_ptr = daw::exchange( m_pointer, nullptr );
+			auto *old_ref = daw::exchange( m_ref_count, nullptr );
+			if( --( *old_ref ) == 0 ) {
 				delete old_ref;
 				Deleter{ }( old_ptr );
 			}
-- 
2.43.0


From 8c5ba42a50c37943804768de112ce1b2a7db87b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:28 +0000
Subject: [PATCH 079/248] fix: rc_ptr: assigning from a pointer held by the old
 object is safe

---
 include/daw/daw_ref_counted_pointer.h | 28 ++++++++-------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/include/daw/daw_ref_counted_pointer.h b/include/daw/daw_ref_counted_pointer.h
index 85166bc..1791534 100644
--- a/include/daw/daw_ref_counted_pointer.h
+++ b/include/daw/daw_ref_counted_pointer.h
@@ -87,13 +87,8 @@ namespace daw {
 		constexpr rc_ptr &
 		operator=( rc_ptr const &rhs ) noexcept( is_t_nothrow_destructible ) {
 			if( this != &rhs ) {
-				reset( );
-				if( rhs ) {
-					m_pointer = rhs.m_pointer;
-					m_ref_count = rhs.m_ref_count;
-					assert( m_ref_count );
-					++ref_count( );
-				}
+				rc_ptr tmp( rhs );
+				swap( tmp );
 			}
 			return *this;
 		}
@@ -105,9 +100,8 @@ namespace daw {
 		constexpr rc_ptr &
 		operator=( rc_ptr &&rhs ) noexcept( is_t_nothrow_destructible ) {
 			if( this != &rhs ) {
-				reset( );
-				m_pointer = daw::exchange( rhs.m_pointer, nullptr );
-				m_ref_count = daw::exchange( rhs.m_ref_count, nullptr );
+				rc_ptr tmp( std::move( rhs ) );
+				swap( tmp );
 			}
 			return *this;
 		}
@@ -259,13 +253,8 @@ namespace daw {
 		constexpr rc_ptr &
 		operator=( rc_ptr const &rhs ) noexcept( is_t_nothrow_destructible ) {
 			if( this != &rhs ) {
-				reset( );
-				m_pointer = rhs.m_pointer;
-				m_ref_count = rhs.m_ref_count;
-				if( m_pointer ) {
-					assert( m_ref_count );
-					++ref_count( );
-				}
+				rc_ptr tmp( rhs );
+				swap( tmp );
 			}
 			return *this;
 		}
@@ -277,9 +266,8 @@ namespace daw {
 		constexpr rc_ptr &
 		operator=( rc_ptr &&rhs ) noexcept( is_t_nothrow_destructible ) {
 			if( this != &rhs ) {
-				reset( );
-				m_pointer = daw::exchange( rhs.m_pointer, nullptr );
-				m_ref_count = daw::exchange( rhs.m_ref_count, nullptr );
+				rc_ptr tmp( std::move( rhs ) );
+				swap( tmp );
 			}
 			return *this;
 		}
-- 
2.43.0


From 1379c18d6eccf76196994e9f37b1a485050e0ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:28 +0000
Subject: [PATCH 080/248] fix: rc_ptr: ordering against nullptr compiles

---
 include/daw/daw_ref_counted_pointer.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/daw/daw_ref_counted_pointer.h b/include/daw/daw_ref_counted_pointer.h
index 1791534..929dc58 100644
--- a/include/daw/daw_ref_counted_pointer.h
+++ b/include/daw/daw_ref_counted_pointer.h
@@ -197,19 +197,19 @@ namespace daw {
 		}
 
 		constexpr bool operator<( std::nullptr_t ) const noexcept {
-			return std::less<>{ }( m_pointer, nullptr );
+			return std::less<pointer>{ }( m_pointer, nullptr );
 		}
 
 		constexpr bool operator<=( std::nullptr_t ) const noexcept {
-			return not std::less<>{ }( nullptr, m_pointer );
+			return not std::less<pointer>{ }( nullptr, m_pointer );
 		}
 
 		constexpr bool operator>( std::nullptr_t ) const noexcept {
-			return std::less<>{ }( nullptr, m_pointer );
+			return std::less<pointer>{ }( nullptr, m_pointer );
 		}
 
 		constexpr bool operator>=( std::nullptr_t ) const noexcept {
-			return not std::less<>{ }( m_pointer, nullptr );
+			return not std::less<pointer>{ }( m_pointer, nullptr );
 		}
 	};
 
@@ -369,19 +369,19 @@ namespace daw {
 		}
 
 		constexpr bool operator<( std::nullptr_t ) const noexcept {
-			return std::less<>{ }( m_pointer, nullptr );
+			return std::less<pointer>{ }( m_pointer, nullptr );
 		}
 
 		constexpr bool operator<=( std::nullptr_t ) const noexcept {
-			return not std::less<>{ }( nullptr, m_pointer );
+			return not std::less<pointer>{ }( nullptr, m_pointer );
 		}
 
 		constexpr bool operator>( std::nullptr_t ) const noexcept {
-			return std::less<>{ }( nullptr, m_pointer );
+			return std::less<pointer>{ }( nullptr, m_pointer );
 		}
 
 		constexpr bool operator>=( std::nullptr_t ) const noexcept {
-			return not std::less<>{ }( m_pointer, nullptr );
+			return not std::less<pointer>{ }( m_pointer, nullptr );
 		}
 	};
 
-- 
2.43.0


From 4e4a28d1fcc6e3c148e3350e12856915f30e1b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:28 +0000
Subject: [PATCH 081/248] fix: value_ptr: copies of an empty one are empty,
 assignment compiles, a moved-from one can be assigned

---
 include/daw/daw_value_ptr.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_value_ptr.h b/include/daw/daw_value_ptr.h
index 5dde242..37e8534 100644
--- a/include/daw/daw_value_ptr.h
+++ b/include/daw/daw_value_ptr.h
@@ -78,7 +78,9 @@ namespace daw {
 		  : enable_default_constructor<T>( other )
 		  , enable_copy_constructor<T>( other )
 		  , enable_copy_assignment<T>( other )
-		  , m_value( std::make_unique<value_type>( *other.m_value ) ) {}
+		  , m_value( other.m_value
+		               ? std::make_unique<value_type>( *other.m_value )
+		               : nullptr ) {}
 
 		constexpr value_ptr( value_ptr &&other ) noexcept
 		  : enable_default_constructor<T>( std::move( other ) )
@@ -88,7 +90,7 @@ namespace daw {
 
 		constexpr value_ptr &operator=( value_ptr const &rhs ) noexcept(
 		  std::is_nothrow_copy_constructible_v<value_type> ) {
-			if( this != rhs ) {
+			if( this != &rhs ) {
 				if( !m_value and !rhs.m_value ) {
 					return *this;
 				}
@@ -122,7 +124,11 @@ namespace daw {
 
 		value_ptr &operator=( value_type &&rhs ) noexcept(
 		  std::is_nothrow_move_assignable_v<value_type> ) {
-			*m_value = std::move( rhs );
+			if( !m_value ) {
+				m_value = std::make_unique<value_type>( std::move( rhs ) );
+			} else {
+				*m_value = std::move( rhs );
+			}
 			return *this;
 		}
 
@@ -144,7 +150,7 @@ namespace daw {
 		  default;
 
 		constexpr pointer release( ) noexcept {
-			return daw::exchange( m_value, nullptr );
+			return m_value.release( );
 		}
 
 		constexpr void swap( value_ptr &rhs ) noexcept {
-- 
2.43.0


From 90bbc5641ab15480b92865733767310d82055aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:28 +0000
Subject: [PATCH 082/248] fix: heap_value: non-const copies are copies, a
 moved-from one can be copied and assigned

---
 include/daw/deprecated/daw_heap_value.h | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/daw/deprecated/daw_heap_value.h b/include/daw/deprecated/daw_heap_value.h
index 1044e4f..0e01368 100644
--- a/include/daw/deprecated/daw_heap_value.h
+++ b/include/daw/deprecated/daw_heap_value.h
@@ -37,11 +37,17 @@ namespace daw {
 		heap_value &operator=( heap_value && ) = default;
 
 		heap_value( heap_value const &other )
-		  : m_value{ std::make_unique<value_t>( *other.m_value ) } {}
+		  : m_value{ other.m_value ? std::make_unique<value_t>( *other.m_value )
+		                           : nullptr } {}
 
 		heap_value &operator=( heap_value const &rhs ) {
 			if( this != &rhs ) {
-				*m_value = *rhs.m_value;
+				if( m_value and rhs.m_value ) {
+					*m_value = *rhs.m_value;
+				} else {
+					heap_value tmp( rhs );
+					swap( tmp );
+				}
 			}
 			return *this;
 		}
@@ -49,14 +55,14 @@ namespace daw {
 		// Make this less perfect so that we can still do copy/move construction
 		template<
 		  typename Arg,
-		  typename = std::enable_if_t<daw::traits::not_self<Arg, value_t>( )>>
+		  typename = std::enable_if_t<daw::traits::not_self<Arg, heap_value>( )>>
 		heap_value( Arg &&arg )
 		  : m_value{ std::make_unique<value_t>( DAW_FWD( arg ) ) } {}
 
-		template<typename Arg, typename... Args>
-		heap_value( Arg &&arg, Args &&...args )
-		  : m_value{
-		      std::make_unique<value_t>( DAW_FWD( arg ), DAW_FWD( args )... ) } {}
+		template<typename Arg0, typename Arg1, typename... Args>
+		heap_value( Arg0 &&arg0, Arg1 &&arg1, Args &&...args )
+		  : m_value{ std::make_unique<value_t>(
+		      DAW_FWD( arg0 ), DAW_FWD( arg1 ), DAW_FWD( args )... ) } {}
 
 		void swap( heap_value &rhs ) noexcept {
 			daw::cswap( m_value, rhs.m_value );
-- 
2.43.0


From fe57281a2d7dc08be25191a81067b9eb13a58b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:28 +0000
Subject: [PATCH 083/248] fix: heap_value: calling it calls the value,
 subscripting gives the value its result

---
 include/daw/deprecated/daw_heap_value.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/daw/deprecated/daw_heap_value.h b/include/daw/deprecated/daw_heap_value.h
index 0e01368..729f49a 100644
--- a/include/daw/deprecated/daw_heap_value.h
+++ b/include/daw/deprecated/daw_heap_value.h
@@ -101,23 +101,23 @@ namespace daw {
 		}
 
 		template<typename... Args>
-		auto operator[]( Args &&...args ) {
+		decltype( auto ) operator[]( Args &&...args ) {
 			return m_value->operator[]( DAW_FWD( args )... );
 		}
 
 		template<typename... Args>
-		auto operator[]( Args &&...args ) const {
+		decltype( auto ) operator[]( Args &&...args ) const {
 			return m_value->operator[]( DAW_FWD( args )... );
 		}
 
 		template<typename... Args>
-		auto operator( )( Args &&...args ) {
-			return m_value->operator[]( DAW_FWD( args )... );
+		decltype( auto ) operator( )( Args &&...args ) {
+			return m_value->operator( )( DAW_FWD( args )... );
 		}
 
 		template<typename... Args>
-		auto operator( )( Args &&...args ) const {
-			return m_value->operator[]( DAW_FWD( args )... );
+		decltype( auto ) operator( )( Args &&...args ) const {
+			return m_value->operator( )( DAW_FWD( args )... );
 		}
 	};
 
-- 
2.43.0


From c2e3e6a7079bb796b1db72dd73f795b2a1a0152e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:28 +0000
Subject: [PATCH 084/248] fix: copiable_unique_ptr: comparisons with nullptr
 and ordering compile

---
 .../daw/deprecated/daw_copiable_unique_ptr.h  | 36 +++++++++----------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/include/daw/deprecated/daw_copiable_unique_ptr.h b/include/daw/deprecated/daw_copiable_unique_ptr.h
index 6e410af..e23c122 100644
--- a/include/daw/deprecated/daw_copiable_unique_ptr.h
+++ b/include/daw/deprecated/daw_copiable_unique_ptr.h
@@ -144,13 +144,13 @@ namespace daw {
 		return lhs.get( ) == rhs.get( );
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T1, typename D1>
 	constexpr bool operator==( copiable_unique_ptr<T1, D1> const &lhs,
 	                           std::nullptr_t ) noexcept {
 		return !lhs;
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T1, typename D1>
 	constexpr bool operator==( std::nullptr_t,
 	                           copiable_unique_ptr<T1, D1> const &rhs ) noexcept {
 		return !rhs;
@@ -163,14 +163,14 @@ namespace daw {
 		return lhs.get( ) != rhs.get( );
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T1, typename D1>
 	constexpr bool operator!=( copiable_unique_ptr<T1, D1> const &lhs,
 	                           std::nullptr_t ) noexcept {
 
 		return static_cast<bool>( lhs );
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T2, typename D2>
 	constexpr bool operator!=( std::nullptr_t,
 	                           copiable_unique_ptr<T2, D2> const &rhs ) noexcept {
 
@@ -181,24 +181,24 @@ namespace daw {
 	constexpr bool operator<( copiable_unique_ptr<T1, D1> const &lhs,
 	                          copiable_unique_ptr<T2, D2> const &rhs ) noexcept {
 		using CT =
-		  std::common_type_t<typename copiable_unique_ptr<T1, D1>::pointer,
-		                     typename copiable_unique_ptr<T2, D2>::pointer>;
-		return std::less<CT>( lhs.get( ), rhs.get( ) );
+		  std::common_type_t<typename copiable_unique_ptr<T1, D1>::const_pointer,
+		                     typename copiable_unique_ptr<T2, D2>::const_pointer>;
+		return std::less<CT>{ }( lhs.get( ), rhs.get( ) );
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T1, typename D1>
 	constexpr bool operator<( copiable_unique_ptr<T1, D1> const &lhs,
 	                          std::nullptr_t ) noexcept {
 
-		return std::less<typename copiable_unique_ptr<T1, D1>::pointer>( lhs.get( ),
-		                                                                 nullptr );
+		return std::less<typename copiable_unique_ptr<T1, D1>::const_pointer>{ }(
+		  lhs.get( ), nullptr );
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T1, typename D1>
 	constexpr bool operator<( std::nullptr_t,
 	                          copiable_unique_ptr<T1, D1> const &rhs ) noexcept {
 
-		return std::less<typename copiable_unique_ptr<T1, D1>::pointer>(
+		return std::less<typename copiable_unique_ptr<T1, D1>::const_pointer>{ }(
 		  nullptr, rhs.get( ) );
 	}
 
@@ -208,14 +208,14 @@ namespace daw {
 		return !( rhs < lhs );
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T1, typename D1>
 	constexpr bool operator<=( copiable_unique_ptr<T1, D1> const &lhs,
 	                           std::nullptr_t ) noexcept {
 
 		return !( nullptr < lhs );
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T2, typename D2>
 	constexpr bool operator<=( std::nullptr_t,
 	                           copiable_unique_ptr<T2, D2> const &rhs ) noexcept {
 
@@ -228,14 +228,14 @@ namespace daw {
 		return rhs < lhs;
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T1, typename D1>
 	constexpr bool operator>( copiable_unique_ptr<T1, D1> const &lhs,
 	                          std::nullptr_t ) noexcept {
 
 		return nullptr < lhs;
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T2, typename D2>
 	constexpr bool operator>( std::nullptr_t,
 	                          copiable_unique_ptr<T2, D2> const &rhs ) noexcept {
 
@@ -248,14 +248,14 @@ namespace daw {
 		return !( lhs < rhs );
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T1, typename D1>
 	constexpr bool operator>=( copiable_unique_ptr<T1, D1> const &lhs,
 	                           std::nullptr_t ) noexcept {
 
 		return !( lhs < nullptr );
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T2, typename D2>
 	constexpr bool operator>=( std::nullptr_t,
 	                           copiable_unique_ptr<T2, D2> const &rhs ) noexcept {
 
-- 
2.43.0


From 47d0b90907509d79ba8bc8a7bded4132750d1764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:28 +0000
Subject: [PATCH 085/248] fix: value_ptr::emplace takes what the stored type is
 built from

---
 include/daw/daw_value_ptr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_value_ptr.h b/include/daw/daw_value_ptr.h
index 37e8534..1babbca 100644
--- a/include/daw/daw_value_ptr.h
+++ b/include/daw/daw_value_ptr.h
@@ -62,11 +62,11 @@ namespace daw {
 		template<
 		  typename U, typename... Args,
 		  std::enable_if_t<
-		    all_true_v<std::is_constructible_v<value_type, Args...>,
+		    all_true_v<std::is_constructible_v<U, Args...>,
 		               !traits::is_first_type_v<value_ptr, std::decay_t<Args>...>>,
 		    std::nullptr_t> = nullptr>
 		static value_ptr emplace( Args &&...args ) noexcept(
-		  std::is_nothrow_constructible_v<value_type, Args...> ) {
+		  std::is_nothrow_constructible_v<U, Args...> ) {
 
 			auto result = value_ptr<value_type>( std::nullopt );
 			result.m_value = std::make_unique<U>( DAW_FWD( args )... );
-- 
2.43.0


From b83a6b72bc973f76df0cb9a8498f851cb7b94e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:44 +0000
Subject: [PATCH 086/248] fix: observer_ptr: conversion from an observer of a
 derived type compiles

---
 include/daw/daw_observer_ptr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_observer_ptr.h b/include/daw/daw_observer_ptr.h
index 117b897..aaa68de 100644
--- a/include/daw/daw_observer_ptr.h
+++ b/include/daw/daw_observer_ptr.h
@@ -37,7 +37,7 @@ namespace daw {
 		requires( not std::same_as<T, U> and
 		          std::convertible_to<
 		            U *, T *> ) constexpr observer_ptr( observer_ptr<U> other )
-		  : m_ptr( other.m_ptr ) {}
+		  : m_ptr( other.get( ) ) {}
 
 		constexpr observer_ptr &operator=( pointer p ) {
 			m_ptr = p;
-- 
2.43.0


From 583c46a9a5d7d3df98aedd38f6320fbc655457dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:44 +0000
Subject: [PATCH 087/248] fix: prop_const_ptr: postfix operators return the old
 pointer, const addition compiles

---
 include/daw/daw_prop_const_ptr.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_prop_const_ptr.h b/include/daw/daw_prop_const_ptr.h
index 46064b8..370c94f 100644
--- a/include/daw/daw_prop_const_ptr.h
+++ b/include/daw/daw_prop_const_ptr.h
@@ -79,7 +79,7 @@ namespace daw {
 			return *this;
 		}
 
-		constexpr prop_const_ptr &operator++( int ) {
+		constexpr prop_const_ptr operator++( int ) {
 			auto result = *this;
 			++m_ptr;
 			return result;
@@ -90,7 +90,7 @@ namespace daw {
 			return *this;
 		}
 
-		constexpr prop_const_ptr &operator--( int ) {
+		constexpr prop_const_ptr operator--( int ) {
 			auto result = *this;
 			--m_ptr;
 			return result;
@@ -112,7 +112,8 @@ namespace daw {
 			return result;
 		}
 
-		constexpr prop_const_ptr operator+( difference_type d ) const {
+		constexpr prop_const_ptr<std::add_const_t<value_type>>
+		operator+( difference_type d ) const {
 			auto result = prop_const_ptr<std::add_const_t<value_type>>( m_ptr );
 			result += d;
 			return result;
-- 
2.43.0


From d9dbc70434940c8ab46b11095304482d852e6c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:44 +0000
Subject: [PATCH 088/248] fix: safe_pointer: dereferencing and subscripting
 reach the element pointed to, inside the range

---
 include/daw/daw_safe_pointer.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_safe_pointer.h b/include/daw/daw_safe_pointer.h
index 053f827..e64c594 100644
--- a/include/daw/daw_safe_pointer.h
+++ b/include/daw/daw_safe_pointer.h
@@ -168,7 +168,9 @@ namespace daw::memory {
 
 		[[nodiscard]] constexpr reference operator*( ) const noexcept {
 			DAW_SAFE_POINTER_ENSURE( *this );
-			return m_range.front( );
+			DAW_SAFE_POINTER_ENSURE( not m_range.data( ) or
+			                         pointer_index( ) < get_base_size( ) );
+			return *m_pointer;
 		}
 
 		[[nodiscard]] constexpr pointer operator->( ) const noexcept {
-- 
2.43.0


From 924c47b4a2ea51815cd8db5b939752f5975cc720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:44 +0000
Subject: [PATCH 089/248] fix: safe_pointer: the end of the range can be
 subtracted, nullptr can be compared with

---
 include/daw/daw_safe_pointer.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_safe_pointer.h b/include/daw/daw_safe_pointer.h
index e64c594..64db264 100644
--- a/include/daw/daw_safe_pointer.h
+++ b/include/daw/daw_safe_pointer.h
@@ -56,7 +56,7 @@ namespace daw::memory {
 		[[nodiscard]] constexpr bool pointer_in_range( pointer p ) const {
 			return ( not get_base( ) and not p ) or
 			       ( std::less_equal<>{ }( get_base( ), p ) and
-			         std::less<>{ }( p, daw::data_end( m_range ) ) );
+			         std::less_equal<>{ }( p, daw::data_end( m_range ) ) );
 		}
 
 		[[nodiscard]] constexpr bool same_range( safe_pointer const &rhs ) const {
@@ -403,13 +403,13 @@ namespace daw::memory {
 		}
 	};
 
-	template<typename T, typename D>
+	template<typename T>
 	constexpr bool operator==( std::nullptr_t,
 	                           safe_pointer<T> const &rhs ) noexcept {
 		return not rhs.get( );
 	}
 
-	template<typename T, typename D>
+	template<typename T>
 	constexpr bool operator==( safe_pointer<T> const &lhs,
 	                           std::nullptr_t ) noexcept {
 		return not lhs.get( );
-- 
2.43.0


From 00aca673b08bd0003afaa0969d45bff7c1b23f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:44 +0000
Subject: [PATCH 090/248] fix: to_reference_vector advances

---
 include/daw/daw_reference.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/daw/daw_reference.h b/include/daw/daw_reference.h
index 762ec0f..93a4f91 100644
--- a/include/daw/daw_reference.h
+++ b/include/daw/daw_reference.h
@@ -85,6 +85,7 @@ namespace daw {
 		values_type result{ };
 		while( first != last ) {
 			result.push_back( daw::ref<value_type>( *first ) );
+			++first;
 		}
 		return result;
 	}
-- 
2.43.0


From c874549fe7dba855eca23faa9a56d76f7ae532ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:44 +0000
Subject: [PATCH 091/248] fix: not_null: hashing compiles

---
 include/daw/daw_not_null.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_not_null.h b/include/daw/daw_not_null.h
index db2540b..a0a0883 100644
--- a/include/daw/daw_not_null.h
+++ b/include/daw/daw_not_null.h
@@ -444,8 +444,7 @@ namespace daw {
 template<typename Pointer>
 struct std::hash<daw::not_null<Pointer>> {
 	[[nodiscard]] auto operator( )( daw::not_null<Pointer> value ) const
-	  -> decltype( std::hash<decltype( std::declval<Pointer>( ) )>{ }(
-	    value.get( ) ) ) {
-		return std::hash<decltype( std::declval<Pointer>( ) )>{ }( value.get( ) );
+	  -> decltype( std::hash<Pointer>{ }( value.get( ) ) ) {
+		return std::hash<Pointer>{ }( value.get( ) );
 	}
 };
-- 
2.43.0


From 74a4fd30e737c46313aedaeaf03f5b2781ddbdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:06 +0000
Subject: [PATCH 092/248] fix: checked_iterator_proxy can be used with more
 than one iterator type

---
 .../daw/iterator/daw_checked_iterator_proxy.h | 32 ++++++-------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/include/daw/iterator/daw_checked_iterator_proxy.h b/include/daw/iterator/daw_checked_iterator_proxy.h
index 0a38280..3239f02 100644
--- a/include/daw/iterator/daw_checked_iterator_proxy.h
+++ b/include/daw/iterator/daw_checked_iterator_proxy.h
@@ -134,37 +134,25 @@ namespace daw {
 			return current.operator->( );
 		}
 
-		template<typename IteratorFirst_lhs, typename IteratorFirst_rhs,
-		         typename IteratorLast_lhs, typename IteratorLast_rhs>
-		friend bool operator==(
-		  checked_iterator_proxy_t<IteratorFirst_lhs, IteratorLast_lhs> const &lhs,
-		  checked_iterator_proxy_t<IteratorFirst_rhs, IteratorLast_rhs> const
-		    &rhs ) {
+		friend bool operator==( checked_iterator_proxy_t const &lhs,
+		                        checked_iterator_proxy_t const &rhs ) {
 			return lhs.current == rhs.current;
 		}
 
-		template<typename IteratorFirst_lhs, typename IteratorLast_lhs,
-		         typename Iterator_rhs>
-		friend bool operator==(
-		  checked_iterator_proxy_t<IteratorFirst_lhs, IteratorLast_lhs> const &lhs,
-		  Iterator_rhs const &rhs ) {
+		template<typename Iterator_rhs>
+		friend bool operator==( checked_iterator_proxy_t const &lhs,
+		                        Iterator_rhs const &rhs ) {
 			return lhs.current == rhs;
 		}
 
-		template<typename IteratorFirst_lhs, typename IteratorFirst_rhs,
-		         typename IteratorLast_lhs, typename IteratorLast_rhs>
-		friend bool operator!=(
-		  checked_iterator_proxy_t<IteratorFirst_lhs, IteratorLast_lhs> const &lhs,
-		  checked_iterator_proxy_t<IteratorFirst_rhs, IteratorLast_rhs> const
-		    &rhs ) {
+		friend bool operator!=( checked_iterator_proxy_t const &lhs,
+		                        checked_iterator_proxy_t const &rhs ) {
 			return lhs.current != rhs.current;
 		}
 
-		template<typename IteratorFirst_lhs, typename IteratorLast_lhs,
-		         typename Iterator_rhs>
-		friend bool operator!=(
-		  checked_iterator_proxy_t<IteratorFirst_lhs, IteratorLast_lhs> const &lhs,
-		  Iterator_rhs const &rhs ) {
+		template<typename Iterator_rhs>
+		friend bool operator!=( checked_iterator_proxy_t const &lhs,
+		                        Iterator_rhs const &rhs ) {
 			return lhs.current != rhs;
 		}
 	}; // checked_iterator_proxy_t
-- 
2.43.0


From 56c7818a3543604fb1c738fe4a20747337ada077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:06 +0000
Subject: [PATCH 093/248] fix: checked_iterator_proxy keeps all of the
 requested checks

---
 include/daw/iterator/daw_checked_iterator_proxy.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/iterator/daw_checked_iterator_proxy.h b/include/daw/iterator/daw_checked_iterator_proxy.h
index 3239f02..706097f 100644
--- a/include/daw/iterator/daw_checked_iterator_proxy.h
+++ b/include/daw/iterator/daw_checked_iterator_proxy.h
@@ -40,9 +40,9 @@ namespace daw {
 			auto result =
 			  static_cast<std::uint8_t>( CheckIncrement ? check_increment : 0 );
 			result = static_cast<std::uint8_t>(
-			  daw::nsc_or( result, CheckDecrement ) ? check_decrement : 0 );
+			  result | ( CheckDecrement ? check_decrement : 0 ) );
 			result = static_cast<std::uint8_t>(
-			  daw::nsc_or( result, CheckDereference ) ? check_dereference : 0 );
+			  result | ( CheckDereference ? check_dereference : 0 ) );
 
 			return result;
 		}
-- 
2.43.0


From 19e42f32f7d7c3cc359b3630594914dde8e6168e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:06 +0000
Subject: [PATCH 094/248] fix: checked_iterator_proxy postfix operators step
 the iterator and return its old value

---
 include/daw/iterator/daw_checked_iterator_proxy.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/daw/iterator/daw_checked_iterator_proxy.h b/include/daw/iterator/daw_checked_iterator_proxy.h
index 706097f..df279d5 100644
--- a/include/daw/iterator/daw_checked_iterator_proxy.h
+++ b/include/daw/iterator/daw_checked_iterator_proxy.h
@@ -76,9 +76,9 @@ namespace daw {
 			return *this;
 		}
 
-		checked_iterator_proxy_t operator++( int ) const {
+		checked_iterator_proxy_t operator++( int ) {
 			checked_iterator_proxy_t result{ *this };
-			++result;
+			++( *this );
 			return result;
 		}
 
@@ -92,9 +92,9 @@ namespace daw {
 			return *this;
 		}
 
-		checked_iterator_proxy_t operator--( int ) const {
+		checked_iterator_proxy_t operator--( int ) {
 			checked_iterator_proxy_t result{ *this };
-			--result;
+			--( *this );
 			return result;
 		}
 
-- 
2.43.0


From 4b0a2c3f36206feb0393d291509e6db5515dd8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:06 +0000
Subject: [PATCH 095/248] fix: checked_iterator_proxy operator-> compiles and
 points at the element

---
 include/daw/iterator/daw_checked_iterator_proxy.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/daw/iterator/daw_checked_iterator_proxy.h b/include/daw/iterator/daw_checked_iterator_proxy.h
index df279d5..adbf8de 100644
--- a/include/daw/iterator/daw_checked_iterator_proxy.h
+++ b/include/daw/iterator/daw_checked_iterator_proxy.h
@@ -14,6 +14,7 @@
 #include "daw/daw_logic.h"
 
 #include <cstdint>
+#include <memory>
 #include <stdexcept>
 #include <type_traits>
 #include <utility>
@@ -116,22 +117,22 @@ namespace daw {
 			return *current;
 		}
 
-		auto &operator->( ) {
+		auto operator->( ) {
 			if( is_flag_set( check_dereference ) and current == last ) {
 				DAW_THROW_OR_TERMINATE(
 				  std::out_of_range,
 				  "Attempt to access members an iterator at end of range" );
 			}
-			return current.operator->( );
+			return std::addressof( *current );
 		}
 
-		auto const &operator->( ) const {
+		auto operator->( ) const {
 			if( is_flag_set( check_dereference ) and current == last ) {
 				DAW_THROW_OR_TERMINATE(
 				  std::out_of_range,
 				  "Attempt to access members an iterator at end of range" );
 			}
-			return current.operator->( );
+			return std::addressof( *current );
 		}
 
 		friend bool operator==( checked_iterator_proxy_t const &lhs,
-- 
2.43.0


From 8860d18ec2ce678259062c7461dadca2335b1190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:06 +0000
Subject: [PATCH 096/248] fix: chunk_iterator operator-= moves backwards

---
 include/daw/iterator/daw_chunk_iterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/iterator/daw_chunk_iterator.h b/include/daw/iterator/daw_chunk_iterator.h
index c8e9624..9b4143d 100644
--- a/include/daw/iterator/daw_chunk_iterator.h
+++ b/include/daw/iterator/daw_chunk_iterator.h
@@ -88,7 +88,7 @@ namespace daw {
 		}
 
 		constexpr chunk_iterator &operator-=( difference_type n ) {
-			m_iterator += n * m_chunk_size;
+			m_iterator -= n * m_chunk_size;
 			return *this;
 		}
 
-- 
2.43.0


From 6156f5a0a59d01e3fc5abe3152e36cbea948914d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:06 +0000
Subject: [PATCH 097/248] fix: chunk_iterator difference counts chunks

---
 include/daw/iterator/daw_chunk_iterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/iterator/daw_chunk_iterator.h b/include/daw/iterator/daw_chunk_iterator.h
index 9b4143d..73f4644 100644
--- a/include/daw/iterator/daw_chunk_iterator.h
+++ b/include/daw/iterator/daw_chunk_iterator.h
@@ -118,7 +118,7 @@ namespace daw {
 
 		[[nodiscard]] constexpr difference_type
 		operator-( chunk_iterator const &rhs ) const {
-			return m_iterator - rhs.m_iterator;
+			return ( m_iterator - rhs.m_iterator ) / m_chunk_size;
 		}
 
 		constexpr bool operator==( chunk_iterator const &rhs ) const {
-- 
2.43.0


From 1550f21b59ee7af2f0714083f92ce15af4b395b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:06 +0000
Subject: [PATCH 098/248] fix: chunk_iterator operator-> points at the element

---
 include/daw/iterator/daw_chunk_iterator.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/daw/iterator/daw_chunk_iterator.h b/include/daw/iterator/daw_chunk_iterator.h
index 73f4644..48961e4 100644
--- a/include/daw/iterator/daw_chunk_iterator.h
+++ b/include/daw/iterator/daw_chunk_iterator.h
@@ -13,6 +13,7 @@
 
 #include <cstddef>
 #include <iterator>
+#include <memory>
 
 namespace daw {
 	template<typename Iterator>
@@ -44,12 +45,12 @@ namespace daw {
 			return *m_iterator;
 		}
 
-		[[nodiscard]] constexpr decltype( auto ) operator->( ) {
-			return m_iterator->operator->( );
+		[[nodiscard]] constexpr auto operator->( ) {
+			return std::addressof( *m_iterator );
 		}
 
-		[[nodiscard]] constexpr decltype( auto ) operator->( ) const {
-			return m_iterator->operator->( );
+		[[nodiscard]] constexpr auto operator->( ) const {
+			return std::addressof( *m_iterator );
 		}
 
 		[[nodiscard]] constexpr decltype( auto ) operator[]( size_type idx ) {
-- 
2.43.0


From 85d6dd80f553b6be3f94b5a0fb0abfb491407d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:06 +0000
Subject: [PATCH 099/248] fix: circular_iterator stays inside the container
 when stepping back whole rounds

---
 include/daw/iterator/daw_circular_iterator.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/daw/iterator/daw_circular_iterator.h b/include/daw/iterator/daw_circular_iterator.h
index f4152e5..99e8c4b 100644
--- a/include/daw/iterator/daw_circular_iterator.h
+++ b/include/daw/iterator/daw_circular_iterator.h
@@ -62,9 +62,8 @@ namespace daw {
 			  static_cast<difference_type>( impl::container_size( *m_container ) );
 			n += m_position;
 			if( n < 0 ) {
-				n *= -1;
 				n %= sz;
-				return sz - n;
+				return n < 0 ? n + sz : n;
 			} else if( n >= sz ) {
 				return n % sz;
 			}
-- 
2.43.0


From 55929f3f8941ec86be3628c4cae368b06703551f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:06 +0000
Subject: [PATCH 100/248] fix: circular_iterator operator-> points at the
 element

---
 include/daw/iterator/daw_circular_iterator.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/daw/iterator/daw_circular_iterator.h b/include/daw/iterator/daw_circular_iterator.h
index 99e8c4b..438d046 100644
--- a/include/daw/iterator/daw_circular_iterator.h
+++ b/include/daw/iterator/daw_circular_iterator.h
@@ -15,6 +15,7 @@
 
 #include <cstddef>
 #include <iterator>
+#include <memory>
 #include <type_traits>
 #include <utility>
 
@@ -137,8 +138,8 @@ namespace daw {
 			return *get_iterator( m_position );
 		}
 
-		constexpr decltype( auto ) operator->( ) noexcept {
-			return *get_iterator( m_position );
+		constexpr auto operator->( ) noexcept {
+			return std::addressof( *get_iterator( m_position ) );
 		}
 
 		constexpr circular_iterator &operator++( ) noexcept {
-- 
2.43.0


From 833eafc473901ad9866501b379b59412b117a92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:06 +0000
Subject: [PATCH 101/248] fix: integer_range_iterator postfix increment
 compiles

---
 include/daw/iterator/daw_integer_iterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/iterator/daw_integer_iterator.h b/include/daw/iterator/daw_integer_iterator.h
index 00877ce..251e1a6 100644
--- a/include/daw/iterator/daw_integer_iterator.h
+++ b/include/daw/iterator/daw_integer_iterator.h
@@ -39,7 +39,7 @@ namespace daw {
 			return *this;
 		}
 
-		constexpr integer_range_iterator operator++( int ) const noexcept {
+		constexpr integer_range_iterator operator++( int ) noexcept {
 			integer_range_iterator tmp{ *this };
 			++current_value;
 			return tmp;
-- 
2.43.0


From b274b72dd6501979f71bc71f4c5f2bc36482a41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:06 +0000
Subject: [PATCH 102/248] fix: indexed_iterator refuses to dereference the end

---
 include/daw/iterator/daw_indexed_iterator.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/daw/iterator/daw_indexed_iterator.h b/include/daw/iterator/daw_indexed_iterator.h
index 238e474..810a145 100644
--- a/include/daw/iterator/daw_indexed_iterator.h
+++ b/include/daw/iterator/daw_indexed_iterator.h
@@ -60,7 +60,7 @@ namespace daw {
 		[[nodiscard]] constexpr reference operator*( ) noexcept {
 			daw::exception::dbg_precondition_check( m_position >= 0 );
 			daw::exception::dbg_precondition_check(
-			  static_cast<size_type>( m_position ) <= m_pointer->size( ) );
+			  static_cast<size_type>( m_position ) < m_pointer->size( ) );
 
 			return m_pointer->operator[]( static_cast<size_type>( m_position ) );
 		}
@@ -68,7 +68,7 @@ namespace daw {
 		[[nodiscard]] constexpr const_reference operator*( ) const noexcept {
 			daw::exception::dbg_precondition_check( m_position >= 0 );
 			daw::exception::dbg_precondition_check(
-			  static_cast<size_type>( m_position ) <= m_pointer->size( ) );
+			  static_cast<size_type>( m_position ) < m_pointer->size( ) );
 
 			return m_pointer->operator[]( static_cast<size_type>( m_position ) );
 		}
@@ -76,7 +76,7 @@ namespace daw {
 		[[nodiscard]] constexpr pointer operator->( ) noexcept {
 			daw::exception::dbg_precondition_check( m_position >= 0 );
 			daw::exception::dbg_precondition_check(
-			  static_cast<size_type>( m_position ) <= m_pointer->size( ) );
+			  static_cast<size_type>( m_position ) < m_pointer->size( ) );
 
 			return &m_pointer->operator[]( static_cast<size_type>( m_position ) );
 		}
@@ -84,7 +84,7 @@ namespace daw {
 		[[nodiscard]] constexpr const_pointer operator->( ) const noexcept {
 			daw::exception::dbg_precondition_check( m_position >= 0 );
 			daw::exception::dbg_precondition_check(
-			  static_cast<size_type>( m_position ) <= m_pointer->size( ) );
+			  static_cast<size_type>( m_position ) < m_pointer->size( ) );
 
 			return &m_pointer->operator[]( static_cast<size_type>( m_position ) );
 		}
-- 
2.43.0


From 5ee4a1d0bdd35ca196042dbc9f3d236e61fd5a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:06 +0000
Subject: [PATCH 103/248] fix: indexed_iterator refuses every step out of its
 range

---
 include/daw/iterator/daw_indexed_iterator.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/daw/iterator/daw_indexed_iterator.h b/include/daw/iterator/daw_indexed_iterator.h
index 810a145..9afebcf 100644
--- a/include/daw/iterator/daw_indexed_iterator.h
+++ b/include/daw/iterator/daw_indexed_iterator.h
@@ -52,6 +52,8 @@ namespace daw {
 
 		constexpr indexed_iterator &operator-=( difference_type n ) noexcept {
 			daw::exception::dbg_precondition_check( m_position - n >= 0 );
+			daw::exception::dbg_precondition_check(
+			  static_cast<size_type>( m_position - n ) <= m_pointer->size( ) );
 
 			m_position -= n;
 			return *this;
@@ -91,7 +93,7 @@ namespace daw {
 
 		constexpr indexed_iterator &operator++( ) noexcept {
 			daw::exception::dbg_precondition_check(
-			  static_cast<size_type>( m_position ) <= m_pointer->size( ) );
+			  static_cast<size_type>( m_position ) < m_pointer->size( ) );
 
 			++m_position;
 			return *this;
@@ -99,7 +101,7 @@ namespace daw {
 
 		constexpr indexed_iterator operator++( int ) noexcept {
 			daw::exception::dbg_precondition_check(
-			  static_cast<size_type>( m_position ) <= m_pointer->size( ) );
+			  static_cast<size_type>( m_position ) < m_pointer->size( ) );
 
 			auto result = indexed_iterator( *this );
 			++m_position;
@@ -107,14 +109,14 @@ namespace daw {
 		}
 
 		constexpr indexed_iterator &operator--( ) noexcept {
-			daw::exception::dbg_precondition_check( m_position >= 0 );
+			daw::exception::dbg_precondition_check( m_position > 0 );
 
 			--m_position;
 			return *this;
 		}
 
 		constexpr indexed_iterator operator--( int ) noexcept {
-			daw::exception::dbg_precondition_check( m_position >= 0 );
+			daw::exception::dbg_precondition_check( m_position > 0 );
 
 			auto result = indexed_iterator( *this );
 			--m_position;
-- 
2.43.0


From 013f5089c2791d307c946150128bf6b837df4fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:06 +0000
Subject: [PATCH 104/248] fix: pointer_iterator postfix increment does not
 return a dangling reference

---
 include/daw/iterator/daw_pointer_iterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/iterator/daw_pointer_iterator.h b/include/daw/iterator/daw_pointer_iterator.h
index 6c175f3..7f6fd48 100644
--- a/include/daw/iterator/daw_pointer_iterator.h
+++ b/include/daw/iterator/daw_pointer_iterator.h
@@ -67,7 +67,7 @@ namespace daw {
 			return *this;
 		}
 
-		constexpr pointer_iterator &operator++( int ) {
+		constexpr pointer_iterator operator++( int ) {
 			auto result = *this;
 			++m_ptr;
 			return result;
-- 
2.43.0


From fe25ce8839469ffa72723178d4de9e98fe81f28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:06 +0000
Subject: [PATCH 105/248] fix: pointer_iterator prefix decrement returns the
 iterator itself

---
 include/daw/iterator/daw_pointer_iterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/iterator/daw_pointer_iterator.h b/include/daw/iterator/daw_pointer_iterator.h
index 7f6fd48..1d749cf 100644
--- a/include/daw/iterator/daw_pointer_iterator.h
+++ b/include/daw/iterator/daw_pointer_iterator.h
@@ -73,7 +73,7 @@ namespace daw {
 			return result;
 		}
 
-		constexpr pointer_iterator operator--( ) {
+		constexpr pointer_iterator &operator--( ) {
 			--m_ptr;
 			return *this;
 		}
-- 
2.43.0


From 788d9bf53fc6ba70c01cd9370c872253c076636e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:06 +0000
Subject: [PATCH 106/248] fix: pointer_iterator provides operator-( n )

---
 include/daw/iterator/daw_pointer_iterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/iterator/daw_pointer_iterator.h b/include/daw/iterator/daw_pointer_iterator.h
index 1d749cf..8a56e08 100644
--- a/include/daw/iterator/daw_pointer_iterator.h
+++ b/include/daw/iterator/daw_pointer_iterator.h
@@ -100,7 +100,7 @@ namespace daw {
 			return result;
 		}
 
-		constexpr pointer_iterator operator-=( difference_type d ) const {
+		constexpr pointer_iterator operator-( difference_type d ) const {
 			auto result = *this;
 			result -= d;
 			return result;
-- 
2.43.0


From 4b44a747d95a1a05a40f211a27067e67e415fe03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:06 +0000
Subject: [PATCH 107/248] fix: arg_iterator_t::at gives the first argument

---
 include/daw/iterator/daw_argument_iterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/iterator/daw_argument_iterator.h b/include/daw/iterator/daw_argument_iterator.h
index 11a6b94..b9c8b3a 100644
--- a/include/daw/iterator/daw_argument_iterator.h
+++ b/include/daw/iterator/daw_argument_iterator.h
@@ -101,7 +101,7 @@ namespace daw {
 			auto const pos = m_pos + n;
 
 			daw::exception::precondition_check<std::out_of_range>(
-			  0 < pos and pos < m_argc, "Attempt to access invalid argument" );
+			  0 <= pos and pos < m_argc, "Attempt to access invalid argument" );
 
 			return std::string_view( m_argv[pos] );
 		}
-- 
2.43.0


From cd7718594ffc4d1c059fd31e643f161ca33b7fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:06 +0000
Subject: [PATCH 108/248] fix: arg_iterator_t orders by position

---
 include/daw/iterator/daw_argument_iterator.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/daw/iterator/daw_argument_iterator.h b/include/daw/iterator/daw_argument_iterator.h
index b9c8b3a..7efb523 100644
--- a/include/daw/iterator/daw_argument_iterator.h
+++ b/include/daw/iterator/daw_argument_iterator.h
@@ -126,28 +126,28 @@ namespace daw {
 
 		constexpr bool operator<( arg_iterator_t const &rhs ) const noexcept {
 			if( m_argv == rhs.m_argv ) {
-				return m_argc < rhs.m_argc;
+				return m_pos < rhs.m_pos;
 			}
 			return not at_end( ) and rhs.at_end( );
 		}
 
 		constexpr bool operator<=( arg_iterator_t const &rhs ) const noexcept {
 			if( m_argv == rhs.m_argv ) {
-				return m_argc <= rhs.m_argc;
+				return m_pos <= rhs.m_pos;
 			}
 			return rhs.at_end( );
 		}
 
 		constexpr bool operator>( arg_iterator_t const &rhs ) const noexcept {
 			if( m_argv == rhs.m_argv ) {
-				return m_argc > rhs.m_argc;
+				return m_pos > rhs.m_pos;
 			}
-			return at_end( );
+			return at_end( ) and not rhs.at_end( );
 		}
 
 		constexpr bool operator>=( arg_iterator_t const &rhs ) const noexcept {
 			if( m_argv == rhs.m_argv ) {
-				return m_argc <= rhs.m_argc;
+				return m_pos >= rhs.m_pos;
 			}
 			return at_end( );
 		}
-- 
2.43.0


From cc6665762ec55bef561d05a1a54529a85832c04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:06 +0000
Subject: [PATCH 109/248] fix: iota_iterator += and -= honour the step

---
 include/daw/iterator/daw_iota_iterator.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/daw/iterator/daw_iota_iterator.h b/include/daw/iterator/daw_iota_iterator.h
index 4580f83..f2b6413 100644
--- a/include/daw/iterator/daw_iota_iterator.h
+++ b/include/daw/iterator/daw_iota_iterator.h
@@ -50,14 +50,12 @@ namespace daw {
 		  , m_step( step_distance ) {}
 
 		constexpr iota_iterator &operator+=( difference_type n ) noexcept {
-			m_value =
-			  static_cast<value_type>( static_cast<difference_type>( m_value ) + n );
+			*this = *this + n;
 			return *this;
 		}
 
 		constexpr iota_iterator &operator-=( difference_type n ) noexcept {
-			m_value =
-			  static_cast<value_type>( static_cast<difference_type>( m_value ) - n );
+			*this = *this - n;
 			return *this;
 		}
 
-- 
2.43.0


From e71a9b393321a7c26e6a9b6e226d57dcc398287c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:06 +0000
Subject: [PATCH 110/248] fix: iota_iterator compares unsigned values

---
 include/daw/iterator/daw_iota_iterator.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/daw/iterator/daw_iota_iterator.h b/include/daw/iterator/daw_iota_iterator.h
index f2b6413..76ecf1d 100644
--- a/include/daw/iterator/daw_iota_iterator.h
+++ b/include/daw/iterator/daw_iota_iterator.h
@@ -121,8 +121,7 @@ namespace daw {
 		template<typename U>
 		[[nodiscard]] constexpr difference_type
 		compare( iota_iterator<U> const &rhs ) const noexcept {
-			auto const diff = m_value - rhs.m_value;
-			if( std::less<value_type>{ }( diff, value_type{ 0 } ) ) {
+			if( std::less<>{ }( m_value, *rhs ) ) {
 				return -1;
 			}
 			if( std::less<value_type>{ }( value_type{ 0 }, 0 ) ) {
-- 
2.43.0


From 3aca9069b854dc70942fc85f49d4c5b9034feaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:06 +0000
Subject: [PATCH 111/248] fix: iota_iterator operator<= includes equality

---
 include/daw/iterator/daw_iota_iterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/iterator/daw_iota_iterator.h b/include/daw/iterator/daw_iota_iterator.h
index 76ecf1d..f913a24 100644
--- a/include/daw/iterator/daw_iota_iterator.h
+++ b/include/daw/iterator/daw_iota_iterator.h
@@ -157,7 +157,7 @@ namespace daw {
 
 		friend constexpr bool operator<=( iota_iterator const &lhs,
 		                                  iota_iterator const &rhs ) noexcept {
-			return lhs.compare( rhs ) < 0;
+			return not( rhs < lhs );
 		}
 	}; // iota_iterator
 
-- 
2.43.0


From 8d78dffa6893e9c508001d8e4d5bff13f818ac63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:06 +0000
Subject: [PATCH 112/248] fix: find_one_iterator starts at the first match

---
 include/daw/iterator/daw_find_one_iterator.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/daw/iterator/daw_find_one_iterator.h b/include/daw/iterator/daw_find_one_iterator.h
index 4bab784..609c42d 100644
--- a/include/daw/iterator/daw_find_one_iterator.h
+++ b/include/daw/iterator/daw_find_one_iterator.h
@@ -68,6 +68,8 @@ namespace daw {
 			  m_last,
 			  find_iterator_impl::FilterProxy<Filters, std::is_class_v<Filters>>::
 			    filter( )... );
+			m_first = tmp.position;
+			m_last_index = tmp.index;
 		}
 
 		constexpr value_type operator*( ) {
-- 
2.43.0


From f1dfed3ef9746094577e1e3120dcea646ed5d588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:06 +0000
Subject: [PATCH 113/248] fix: InputIterator move assignment releases the old
 iterator

---
 include/daw/iterator/InputIterator.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/daw/iterator/InputIterator.h b/include/daw/iterator/InputIterator.h
index fb67376..4139d7f 100644
--- a/include/daw/iterator/InputIterator.h
+++ b/include/daw/iterator/InputIterator.h
@@ -150,6 +150,7 @@ namespace daw {
 
 		InputIterator &operator=( InputIterator &&rhs ) noexcept {
 			if( this != &rhs ) {
+				input_impl::get<input_impl::OpDel, value_type>( m_vtable )( m_iterator );
 				m_iterator = daw::exchange( rhs.m_iterator, nullptr );
 				m_vtable = rhs.m_vtable;
 			}
-- 
2.43.0


From de03c951b43b7cbeef9fb19b08f908726a00cdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:06 +0000
Subject: [PATCH 114/248] fix: InputIterator copy assignment destroys the old
 iterator as its own type

---
 include/daw/iterator/InputIterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/iterator/InputIterator.h b/include/daw/iterator/InputIterator.h
index 4139d7f..61b19c3 100644
--- a/include/daw/iterator/InputIterator.h
+++ b/include/daw/iterator/InputIterator.h
@@ -138,8 +138,8 @@ namespace daw {
 				// copy first so that if it throws we are cool
 				auto tmp = rhs.fn_op_clone( )( rhs.m_iterator );
 				std::swap( m_iterator, tmp );
-				m_vtable = rhs.m_vtable;
 				input_impl::get<input_impl::OpDel, value_type>( m_vtable )( tmp );
+				m_vtable = rhs.m_vtable;
 			}
 			return *this;
 		}
-- 
2.43.0


From 23829f1287587d9f27824a40d9c78fe63bef5808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:06 +0000
Subject: [PATCH 115/248] fix: repeat_n_char_iterator += moves in the direction
 of ++

---
 include/daw/iterator/daw_repeat_n_char_iterator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/iterator/daw_repeat_n_char_iterator.h b/include/daw/iterator/daw_repeat_n_char_iterator.h
index 95db6fd..1e18cb8 100644
--- a/include/daw/iterator/daw_repeat_n_char_iterator.h
+++ b/include/daw/iterator/daw_repeat_n_char_iterator.h
@@ -72,12 +72,12 @@ namespace daw {
 		}
 
 		constexpr repeat_n_char_iterator const &operator+=( ptrdiff_t p ) noexcept {
-			m_position += p;
+			m_position -= p;
 			return *this;
 		}
 
 		constexpr repeat_n_char_iterator const &operator-=( ptrdiff_t p ) noexcept {
-			m_position -= p;
+			m_position += p;
 			return *this;
 		}
 
-- 
2.43.0


From d3938b508e316bf3b328ac3200d53b69b7825937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:50 +0000
Subject: [PATCH 116/248] fix: parse_to refuses integers that do not fit
 instead of overflowing

---
 include/daw/daw_parse_to.h | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_parse_to.h b/include/daw/daw_parse_to.h
index 4e5cf14..b71bdb7 100644
--- a/include/daw/daw_parse_to.h
+++ b/include/daw/daw_parse_to.h
@@ -54,17 +54,27 @@ namespace daw {
 						str.remove_prefix( );
 					}
 					while( count > 0 and !str.empty( ) and is_number( str.front( ) ) ) {
-						result *= static_cast<Result>( 10 );
-						result += static_cast<Result>( str.front( ) - '0' );
+						using limit_t = std::numeric_limits<Result>;
+						auto const digit = static_cast<Result>( str.front( ) - '0' );
+						if( is_neg ) {
+							daw::exception::precondition_check<numeric_overflow_exception>(
+							  result > limit_t::min( ) / 10 or
+							  ( result == limit_t::min( ) / 10 and
+							    -digit >= limit_t::min( ) % 10 ) );
+							result = static_cast<Result>( result * 10 - digit );
+						} else {
+							daw::exception::precondition_check<numeric_overflow_exception>(
+							  result < limit_t::max( ) / 10 or
+							  ( result == limit_t::max( ) / 10 and
+							    digit <= limit_t::max( ) % 10 ) );
+							result = static_cast<Result>( result * 10 + digit );
+						}
 						--count;
 						str.remove_prefix( );
 					}
 
 					daw::exception::precondition_check<numeric_overflow_exception>(
 					  str.empty( ) );
-					if( is_neg ) {
-						result *= static_cast<Result>( -1 );
-					}
 					return result;
 				}
 
-- 
2.43.0


From 3a8a957f035d8543b04ba3e49f1d213847c44a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:50 +0000
Subject: [PATCH 117/248] fix: parse_to refuses a sign without digits

---
 include/daw/daw_parse_to.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/daw/daw_parse_to.h b/include/daw/daw_parse_to.h
index b71bdb7..d66b46b 100644
--- a/include/daw/daw_parse_to.h
+++ b/include/daw/daw_parse_to.h
@@ -52,6 +52,8 @@ namespace daw {
 
 						is_neg = true;
 						str.remove_prefix( );
+						daw::exception::precondition_check<invalid_input_exception>(
+						  not str.empty( ) );
 					}
 					while( count > 0 and !str.empty( ) and is_number( str.front( ) ) ) {
 						using limit_t = std::numeric_limits<Result>;
-- 
2.43.0


From 87529ba05956dddc63d0b9cb331d2c9527252fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:50 +0000
Subject: [PATCH 118/248] fix: parse_to of a quoted string ends at the first
 unescaped quote and never reads past its input

---
 include/daw/daw_parse_to.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_parse_to.h b/include/daw/daw_parse_to.h
index d66b46b..1167a45 100644
--- a/include/daw/daw_parse_to.h
+++ b/include/daw/daw_parse_to.h
@@ -137,19 +137,19 @@ namespace daw {
 				struct missing_expected_quotes_exception {};
 
 				daw::exception::precondition_check<input_too_small_exception>(
-				  str.size( ) > 2 );
+				  str.size( ) >= 2 );
 				daw::exception::precondition_check<missing_expected_quotes_exception>(
 				  str.front( ) == '"' );
 
 				str.remove_prefix( );
 				auto const first = str.data( );
-				char last_char = str.pop_front( );
+				char last_char = '\0';
 				while( not str.empty( ) and
 				       not impl::is_quote( last_char, str.front( ) ) ) {
 					last_char = str.pop_front( );
 				}
 				daw::exception::precondition_check<missing_expected_quotes_exception>(
-				  str.data( ) != nullptr and str.front( ) == '"' );
+				  not str.empty( ) and str.front( ) == '"' );
 
 				return daw::string_view( first, str.data( ) );
 			}
-- 
2.43.0


From b28647f6530db152a9dba2adaa4d914ea9c73e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:50 +0000
Subject: [PATCH 119/248] fix: from_string refuses text with trailing
 characters

---
 include/daw/daw_from_string.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_from_string.h b/include/daw/daw_from_string.h
index 12eacef..ed11b5e 100644
--- a/include/daw/daw_from_string.h
+++ b/include/daw/daw_from_string.h
@@ -32,7 +32,7 @@ namespace daw::from_string_trait {
 				str.data( ),
 				str.data_end( ),
 				result );
-			if(fs_r.ec == std::errc( )) {
+			if(fs_r.ec == std::errc( ) and fs_r.ptr == str.data_end( )) {
 				return result;
 			}
 			return std::nullopt;
-- 
2.43.0


From 649a44b6b1b2f81363619ed02618d9443212feea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:50 +0000
Subject: [PATCH 120/248] fix: parse_unsigned_int refuses empty input and
 characters that are not digits

---
 include/daw/daw_parser_addons.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/daw/daw_parser_addons.h b/include/daw/daw_parser_addons.h
index 119e8f4..0eb4fae 100644
--- a/include/daw/daw_parser_addons.h
+++ b/include/daw/daw_parser_addons.h
@@ -52,11 +52,14 @@ namespace daw::parser {
 		result = Result{};
 		auto count = std::numeric_limits<Result>::digits10;
 
+		daw::exception::precondition_check<ParserEmptyException>( first != last );
 		daw::exception::precondition_check<ParserOutOfRangeException>(
 			'-' != *first,
 			"Negative values are unsupported" );
 
 		for(; first != last and count > 0; ++first, --count) {
+			daw::exception::precondition_check<ParserException>(
+				is_number( *first ) );
 			result *= Result{10};
 			Result const val = from_num_char<Result>( *first );
 			result += val;
@@ -90,6 +93,7 @@ namespace daw::parser {
 	constexpr void parse_int( ForwardIterator first, ForwardIterator last,
 	                          Result &result ) {
 		bool is_neg = false;
+		daw::exception::precondition_check<ParserEmptyException>( first != last );
 		if('-' == *first) {
 			daw::exception::precondition_check<ParserOutOfRangeException>(
 				std::numeric_limits<Result>::is_signed,
-- 
2.43.0


From 48edf668f2574056665e96962dd98cfeabcaf828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:50 +0000
Subject: [PATCH 121/248] fix: find_number returns the whole number and stays
 in its range

---
 include/daw/daw_parser_addons.h | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/daw/daw_parser_addons.h b/include/daw/daw_parser_addons.h
index 0eb4fae..2d8792e 100644
--- a/include/daw/daw_parser_addons.h
+++ b/include/daw/daw_parser_addons.h
@@ -24,19 +24,20 @@ namespace daw::parser {
 			return is_a( '-', v ) or is_number( v );
 		};
 
+		bool at_start = true;
 		bool has_decimal = false;
-		auto const is_last = [&has_decimal]( auto const &v ) {
-			if(is_a( '.', v )) {
-				if(has_decimal) {
-					return true;
-				}
+		auto const is_last = [&at_start, &has_decimal]( auto const &v ) {
+			if(at_start) {
+				at_start = false;
+				return false;
+			}
+			if(is_a( '.', v ) and not has_decimal) {
 				has_decimal = true;
+				return false;
 			}
-			return is_number( v );
+			return not is_number( v );
 		};
-		auto result = from_to_pred( first, last, is_first, is_last );
-		++result.last;
-		return result;
+		return from_to_pred( first, last, is_first, is_last );
 	}
 
 	template<typename R>
-- 
2.43.0


From 3089b23a1dafb7b87e74602e9e7c0d1036a5e07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:50 +0000
Subject: [PATCH 122/248] fix: parse_string_literal skips leading space and
 requires a closing quote

---
 include/daw/daw_parser_addons.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_parser_addons.h b/include/daw/daw_parser_addons.h
index 2d8792e..f62d135 100644
--- a/include/daw/daw_parser_addons.h
+++ b/include/daw/daw_parser_addons.h
@@ -120,7 +120,9 @@ namespace daw::parser {
 	constexpr auto parse_string_literal( ForwardIterator first,
 	                                     ForwardIterator const last ) {
 		auto result = trim_left( first, last );
-		auto quote_char = *first;
+		daw::exception::precondition_check<ParserEmptyException>(
+			result.first != last );
+		auto quote_char = *result.first;
 
 		daw::exception::precondition_check<ParserException>(
 			is_quote( quote_char ) );
@@ -130,7 +132,8 @@ namespace daw::parser {
 		++it;
 		bool found = false;
 		while(it != last) {
-			if(( found = is_a( *it, quote_char ) ) and !is_escape( *last_it )) {
+			found = is_a( *it, quote_char ) and !is_escape( *last_it );
+			if(found) {
 				break;
 			}
 			last_it = it;
-- 
2.43.0


From b8dbc6599bf67ed2ef00a4ac6cfa16c70d412b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:50 +0000
Subject: [PATCH 123/248] fix: value_in finds values instead of missing ones

---
 include/daw/daw_parser_helper.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_parser_helper.h b/include/daw/daw_parser_helper.h
index 812b880..a38743d 100644
--- a/include/daw/daw_parser_helper.h
+++ b/include/daw/daw_parser_helper.h
@@ -200,14 +200,14 @@ namespace daw::parser {
 		return std::find_if( std::begin( container ), std::end( container ),
 		                     [&]( auto const &v ) {
 			                     return is_a( value, v );
-		                     } ) == std::end( container );
+		                     } ) != std::end( container );
 	}
 
 	template<typename T, typename U, size_t N>
 	[[nodiscard]] constexpr bool value_in( T &&value, U ( &container )[N] ) {
 		return std::find_if( container, container + N, [&]( auto const &v ) {
 			       return is_a( value, v );
-		       } ) == std::end( container );
+		       } ) != std::end( container );
 	}
 
 	class in_t {
-- 
2.43.0


From 7e98aab86a43c486cd4d699d1617786be4c17b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:50 +0000
Subject: [PATCH 124/248] fix: is_true with several predicates applies them to
 the value

---
 include/daw/daw_parser_helper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_parser_helper.h b/include/daw/daw_parser_helper.h
index a38743d..ba89154 100644
--- a/include/daw/daw_parser_helper.h
+++ b/include/daw/daw_parser_helper.h
@@ -253,7 +253,7 @@ namespace daw::parser {
 	template<typename T, typename Predicate, typename... Predicates>
 	[[nodiscard]] constexpr bool is_true( T &&value, Predicate &&predicate,
 	                                      Predicates &&...predicates ) {
-		return is_true( DAW_FWD( predicate ), DAW_FWD( value ) ) or
+		return is_true( value, DAW_FWD( predicate ) ) or
 		       is_true( DAW_FWD( value ), DAW_FWD( predicates )... );
 	}
 
-- 
2.43.0


From 1920fef44dc7b42e35475093a9679ff5614bb95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:50 +0000
Subject: [PATCH 125/248] fix: assert_equal and assert_not_equal check what
 they name

---
 include/daw/daw_parser_helper.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_parser_helper.h b/include/daw/daw_parser_helper.h
index ba89154..6d10b99 100644
--- a/include/daw/daw_parser_helper.h
+++ b/include/daw/daw_parser_helper.h
@@ -316,14 +316,14 @@ namespace daw::parser {
 		static_assert( traits::is_comparable_v<T, U>,
 		               "lhs is not comparable to rhs" );
 
-		daw::exception::precondition_check<ParserException>( lhs == rhs );
+		daw::exception::precondition_check<ParserException>( lhs != rhs );
 	}
 
 	template<typename T, typename U>
 	constexpr void assert_equal( T &&lhs, U &&rhs ) {
 		static_assert( traits::is_comparable_v<T, U>,
 		               "lhs is not comparable to rhs" );
-		daw::exception::precondition_check<ParserException>( lhs != rhs );
+		daw::exception::precondition_check<ParserException>( lhs == rhs );
 	}
 
 	template<typename Iterator>
-- 
2.43.0


From f1e148518a26ab8ab15261b5a698d7e67e29fa05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:50 +0000
Subject: [PATCH 126/248] fix: split_on and split_if step over the divider they
 found

---
 include/daw/daw_parser_helper.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_parser_helper.h b/include/daw/daw_parser_helper.h
index 6d10b99..f24d41b 100644
--- a/include/daw/daw_parser_helper.h
+++ b/include/daw/daw_parser_helper.h
@@ -389,8 +389,8 @@ namespace daw::parser {
 		  until_value( first, last, DAW_FWD( divider ), DAW_FWD( dividers )... );
 		while( result ) {
 			endings.push_back( result.last );
-			result = until_value( result.last, last, DAW_FWD( divider ),
-			                      DAW_FWD( dividers )... );
+			result = until_value( std::next( result.last ), last,
+			                      DAW_FWD( divider ), DAW_FWD( dividers )... );
 		}
 		if( result.first != result.last ) {
 			endings.push_back( result.last );
@@ -408,7 +408,7 @@ namespace daw::parser {
 		auto result = until( first, last, is_divider );
 		while( result ) {
 			endings.push_back( result.last );
-			result = until( result.last, last, is_divider );
+			result = until( std::next( result.last ), last, is_divider );
 		}
 		if( result.first != result.last ) {
 			endings.push_back( result.last );
-- 
2.43.0


From 49734fb140c5150925336d9f445e9a2405e0e2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:50 +0000
Subject: [PATCH 127/248] fix: trim_right removes only the trailing white space

---
 include/daw/daw_parser_helper.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_parser_helper.h b/include/daw/daw_parser_helper.h
index f24d41b..fcdec6e 100644
--- a/include/daw/daw_parser_helper.h
+++ b/include/daw/daw_parser_helper.h
@@ -512,8 +512,13 @@ namespace daw::parser {
 		if( not start ) {
 			return make_find_result( first, last, false );
 		}
-		auto finish = until( start.last, last, &is_unicode_whitespace<val_t> );
-		return make_find_result( first, finish.last, true );
+		auto finish = start.last;
+		for( auto it = start.last; it != last; ++it ) {
+			if( not_unicode_whitespace<val_t>( *it ) ) {
+				finish = std::next( it );
+			}
+		}
+		return make_find_result( first, finish, true );
 	}
 
 	template<typename ForwardIterator>
-- 
2.43.0


From 66802f81ab31764cc48edcecda7e2d6e72c812f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:50 +0000
Subject: [PATCH 128/248] fix: trimming a range of nothing but white space
 leaves nothing

---
 include/daw/daw_parser_helper.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_parser_helper.h b/include/daw/daw_parser_helper.h
index fcdec6e..5097096 100644
--- a/include/daw/daw_parser_helper.h
+++ b/include/daw/daw_parser_helper.h
@@ -496,7 +496,7 @@ namespace daw::parser {
 		using val_t = daw::traits::root_type_t<decltype( *first )>;
 		auto start = until( first, last, &not_unicode_whitespace<val_t> );
 		if( not start ) {
-			return make_find_result( first, last );
+			return make_find_result( last, last );
 		}
 		return make_find_result( start.last, last );
 	}
@@ -510,7 +510,7 @@ namespace daw::parser {
 		using val_t = daw::traits::root_type_t<decltype( *first )>;
 		auto start = until( first, last, &not_unicode_whitespace<val_t> );
 		if( not start ) {
-			return make_find_result( first, last, false );
+			return make_find_result( first, first, false );
 		}
 		auto finish = start.last;
 		for( auto it = start.last; it != last; ++it ) {
-- 
2.43.0


From d376bc56feedb4f0b3ef8bdd2caf0037feba753a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:29 +0000
Subject: [PATCH 129/248] fix: counting trailing zeros of the top bit does not
 negate the lowest integer

---
 include/daw/daw_cxmath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_cxmath.h b/include/daw/daw_cxmath.h
index b500135..76d1af0 100644
--- a/include/daw/daw_cxmath.h
+++ b/include/daw/daw_cxmath.h
@@ -575,7 +575,7 @@ namespace daw::cxmath {
 				return 32U;
 			}
 			std::uint32_t c = 32U;
-			v &= static_cast<std::uint32_t>( -static_cast<std::int32_t>( v ) );
+			v &= 0U - v;
 			if( v ) {
 				c--;
 			}
-- 
2.43.0


From 4f260ed469f284b1da860bdcdd80a39427999f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:29 +0000
Subject: [PATCH 130/248] fix: math::round, floor and ceil give the nearest,
 lower and upper integer for every sign and for whole numbers

---
 include/daw/daw_math.h | 41 +++++++++++++++++++++++++++++++++++------
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/include/daw/daw_math.h b/include/daw/daw_math.h
index b2ca9b4..2f287e6 100644
--- a/include/daw/daw_math.h
+++ b/include/daw/daw_math.h
@@ -43,12 +43,41 @@ namespace daw::math {
 	inline constexpr T const PI = T(
 	  3.14159265358979323846264338327950288419716939937510582097494459230781640628620899 );
 
+	namespace impl {
+		template<typename Result, typename Float>
+		[[nodiscard]] constexpr Result round_to( Float d ) noexcept {
+			auto const whole = static_cast<Result>( d );
+			Float const rest = d - static_cast<Float>( whole );
+			if( rest >= Float( 0.5 ) ) {
+				return static_cast<Result>( whole + 1 );
+			}
+			if( rest <= Float( -0.5 ) ) {
+				return static_cast<Result>( whole - 1 );
+			}
+			return whole;
+		}
+
+		template<typename Result, typename Float>
+		[[nodiscard]] constexpr Result floor_to( Float d ) noexcept {
+			auto const whole = static_cast<Result>( d );
+			return static_cast<Float>( whole ) > d ? static_cast<Result>( whole - 1 )
+			                                       : whole;
+		}
+
+		template<typename Result, typename Float>
+		[[nodiscard]] constexpr Result ceil_to( Float d ) noexcept {
+			auto const whole = static_cast<Result>( d );
+			return static_cast<Float>( whole ) < d ? static_cast<Result>( whole + 1 )
+			                                       : whole;
+		}
+	} // namespace impl
+
 	template<typename Result = int_for_float_t<float>>
 	[[nodiscard]] constexpr Result round( float d ) noexcept {
 		static_assert( std::is_integral_v<Result>, "Result type must be integral" );
 		static_assert( std::is_floating_point_v<float>,
 		               "Argument must be a floating point type" );
-		return static_cast<Result>( d + 0.5 );
+		return impl::round_to<Result>( d );
 	}
 
 	template<typename Result = int_for_float_t<double>>
@@ -56,7 +85,7 @@ namespace daw::math {
 		static_assert( std::is_integral_v<Result>, "Result type must be integral" );
 		static_assert( std::is_floating_point_v<double>,
 		               "Argument must be a floating point type" );
-		return static_cast<Result>( d + 0.5 );
+		return impl::round_to<Result>( d );
 	}
 
 	template<typename Result = int_for_float_t<float>>
@@ -64,7 +93,7 @@ namespace daw::math {
 		static_assert( std::is_integral_v<Result>, "Result type must be integral" );
 		static_assert( std::is_floating_point_v<float>,
 		               "Argument must be a floating point type" );
-		return static_cast<Result>( d );
+		return impl::floor_to<Result>( d );
 	}
 
 	template<typename Result = int_for_float_t<double>>
@@ -72,7 +101,7 @@ namespace daw::math {
 		static_assert( std::is_integral_v<Result>, "Result type must be integral" );
 		static_assert( std::is_floating_point_v<double>,
 		               "Argument must be a doubleing point type" );
-		return static_cast<Result>( d );
+		return impl::floor_to<Result>( d );
 	}
 
 	template<typename Result = int_for_float_t<float>>
@@ -80,7 +109,7 @@ namespace daw::math {
 		static_assert( std::is_integral_v<Result>, "Result type must be integral" );
 		static_assert( std::is_floating_point_v<float>,
 		               "Argument must be a floating point type" );
-		return static_cast<Result>( d + 1.0 );
+		return impl::ceil_to<Result>( d );
 	}
 
 	template<typename Result = int_for_float_t<double>>
@@ -88,7 +117,7 @@ namespace daw::math {
 		static_assert( std::is_integral_v<Result>, "Result type must be integral" );
 		static_assert( std::is_floating_point_v<double>,
 		               "Argument must be a doubleing point type" );
-		return static_cast<Result>( d + 1.0 );
+		return impl::ceil_to<Result>( d );
 	}
 
 	template<typename T>
-- 
2.43.0


From 83987e8ff06613e30ac655d593d26a9d20f62427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:29 +0000
Subject: [PATCH 131/248] fix: math::abs of the lowest value of a narrow type
 does not overflow

---
 include/daw/daw_math.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_math.h b/include/daw/daw_math.h
index 2f287e6..482f9ad 100644
--- a/include/daw/daw_math.h
+++ b/include/daw/daw_math.h
@@ -175,7 +175,7 @@ namespace daw::math {
 			return pow2<Result>( bsizeof<intmax_t> - 1 );
 		}
 		if( v < 0 ) {
-			v = -v;
+			return static_cast<Result>( -static_cast<intmax_t>( v ) );
 		}
 		return static_cast<Result>( v );
 	}
-- 
2.43.0


From 2f57ead538c6bf22007e6cf28342981c27361313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:29 +0000
Subject: [PATCH 132/248] fix: math::abs and factorial accept unsigned
 variables

---
 include/daw/daw_math.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_math.h b/include/daw/daw_math.h
index 482f9ad..f6ca36f 100644
--- a/include/daw/daw_math.h
+++ b/include/daw/daw_math.h
@@ -184,8 +184,8 @@ namespace daw::math {
 	         std::enable_if_t<all_true_v<std::is_integral_v<UnsignedInteger>,
 	                                     not std::is_signed_v<UnsignedInteger>>,
 	                          std::nullptr_t> = nullptr>
-	[[nodiscard]] constexpr UnsignedInteger abs( UnsignedInteger &&v ) noexcept {
-		return DAW_FWD( v );
+	[[nodiscard]] constexpr UnsignedInteger abs( UnsignedInteger v ) noexcept {
+		return v;
 	}
 
 	template<typename T>
-- 
2.43.0


From 957acf5e7fa88b3da90b1ac3e3fb881a8b969735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:29 +0000
Subject: [PATCH 133/248] fix: math::pow multiplies by the base, not by the
 running result

---
 include/daw/daw_math.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_math.h b/include/daw/daw_math.h
index f6ca36f..4c6d59f 100644
--- a/include/daw/daw_math.h
+++ b/include/daw/daw_math.h
@@ -201,17 +201,18 @@ namespace daw::math {
 	namespace impl {
 		template<typename T>
 		[[nodiscard]] constexpr T pow_impl( T base, size_t exponent ) noexcept {
-			for( size_t k = 0; k < exponent; ++k ) {
-				base *= base;
+			T result = base;
+			for( size_t k = 1; k < exponent; ++k ) {
+				result *= base;
 			}
-			return base;
+			return result;
 		}
 
 	} // namespace impl
 
 	template<typename T>
 	[[nodiscard]] constexpr T pow( T base, size_t exponent ) noexcept {
-		return base == 0 ? 0 : exponent > 0 ? impl::pow_impl( base, exponent ) : 1;
+		return exponent > 0 ? impl::pow_impl( base, exponent ) : T( 1 );
 	}
 
 	namespace impl {
-- 
2.43.0


From fc7005346d103cd49f4fbc410404dc4e3a65f532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:29 +0000
Subject: [PATCH 134/248] fix: math::nearly_equal uses the smallest normal
 value near zero, not an exponent

---
 include/daw/daw_math.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_math.h b/include/daw/daw_math.h
index 4c6d59f..2c7b056 100644
--- a/include/daw/daw_math.h
+++ b/include/daw/daw_math.h
@@ -305,10 +305,10 @@ namespace daw::math {
 		if( a == b ) { // shortcut, handles infinities
 			return true;
 		}
-		if( a == 0 or b == 0 or diff < std::numeric_limits<T>::min_exponent ) {
+		if( a == 0 or b == 0 or diff < (std::numeric_limits<T>::min)( ) ) {
 			// a or b is zero or both are extremely close to it
 			// 			// relative error is less meaningful here
-			return diff < ( epsilon * std::numeric_limits<T>::min_exponent );
+			return diff < ( epsilon * (std::numeric_limits<T>::min)( ) );
 		}
 		// use relative error
 		return diff / (daw::min)(( absA + absB ), max_value<T>) < epsilon;
-- 
2.43.0


From 9c288d21a42f943f7fab90584ba668d05301b9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:29 +0000
Subject: [PATCH 135/248] fix: natural_t operators work across types and never
 leave a zero

---
 include/daw/daw_natural.h | 42 +++++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/include/daw/daw_natural.h b/include/daw/daw_natural.h
index 6d0a803..87f5607 100644
--- a/include/daw/daw_natural.h
+++ b/include/daw/daw_natural.h
@@ -61,7 +61,7 @@ namespace daw {
 		constexpr natural_t &operator+=( natural_t<U> const &rhs ) noexcept {
 			static_assert( daw::traits::has_addition_operator_v<T>,
 			               "Addition operator is not valid" );
-			m_value += rhs.m_value;
+			m_value = static_cast<T>( m_value + rhs.value( ) );
 			return *this;
 		}
 
@@ -69,7 +69,9 @@ namespace daw {
 		constexpr natural_t &operator-=( natural_t<U> const &rhs ) {
 			static_assert( daw::traits::has_subtraction_operator_v<T>,
 			               "Subtraction operator is not valid" );
-			m_value = validate( m_value - rhs.m_value );
+			daw::exception::precondition_check<invalid_natural_number>(
+			  daw::cxmath::cmp_greater( m_value, rhs.value( ) ) );
+			m_value = static_cast<T>( m_value - rhs.value( ) );
 			return *this;
 		}
 
@@ -77,23 +79,23 @@ namespace daw {
 		constexpr natural_t &operator*=( natural_t<U> const &rhs ) noexcept {
 			static_assert( daw::traits::has_multiplication_operator_v<T>,
 			               "Multiplication operator is not valid" );
-			m_value *= rhs.m_value;
+			m_value = static_cast<T>( m_value * rhs.value( ) );
 			return *this;
 		}
 
 		template<typename U>
-		constexpr natural_t &operator/=( natural_t<U> const &rhs ) noexcept {
+		constexpr natural_t &operator/=( natural_t<U> const &rhs ) {
 			static_assert( daw::traits::has_division_operator_v<T>,
 			               "Division operator is not valid" );
-			m_value /= rhs.m_value;
+			m_value = static_cast<T>( validate( m_value / rhs.value( ) ) );
 			return *this;
 		}
 
 		template<typename U>
-		constexpr natural_t &operator%=( natural_t<U> const &rhs ) noexcept {
+		constexpr natural_t &operator%=( natural_t<U> const &rhs ) {
 			static_assert( daw::traits::has_modulus_operator_v<T>,
 			               "Modulus operator is not valid" );
-			m_value %= rhs.m_value;
+			m_value = static_cast<T>( validate( m_value % rhs.value( ) ) );
 			return *this;
 		}
 
@@ -133,9 +135,8 @@ namespace daw {
 			static_assert( daw::traits::has_addition_operator_v<T, U>,
 			               "Addition operator is not valid" );
 			using result_t = decltype( std::declval<T>( ) + std::declval<U>( ) );
-			natural_t<result_t> result{ };
-			result.m_value = static_cast<T>( lhs ) + static_cast<U>( rhs );
-			return result;
+			return natural_t<result_t>{ static_cast<T>( lhs ) +
+			                            static_cast<U>( rhs ) };
 		}
 
 		template<typename U>
@@ -144,6 +145,8 @@ namespace daw {
 			static_assert( daw::traits::has_subtraction_operator_v<T, U>,
 			               "Subtraction operator is not valid" );
 			using result_t = decltype( std::declval<T>( ) - std::declval<U>( ) );
+			daw::exception::precondition_check<invalid_natural_number>(
+			  daw::cxmath::cmp_greater( lhs.value( ), rhs.value( ) ) );
 			return natural_t<result_t>{ static_cast<T>( lhs ) -
 			                            static_cast<U>( rhs ) };
 		}
@@ -154,31 +157,28 @@ namespace daw {
 			static_assert( daw::traits::has_multiplication_operator_v<T, U>,
 			               "Multiplication operator is not valid" );
 			using result_t = decltype( std::declval<T>( ) * std::declval<U>( ) );
-			natural_t<result_t> result{ };
-			result.m_value = static_cast<T>( lhs ) * static_cast<U>( rhs );
-			return result;
+			return natural_t<result_t>{ static_cast<T>( lhs ) *
+			                            static_cast<U>( rhs ) };
 		}
 
 		template<typename U>
 		friend constexpr auto operator/( natural_t const &lhs,
-		                                 natural_t<U> const &rhs ) noexcept {
+		                                 natural_t<U> const &rhs ) {
 			static_assert( daw::traits::has_division_operator_v<T, U>,
 			               "Division operator is not valid" );
 			using result_t = decltype( std::declval<T>( ) / std::declval<U>( ) );
-			natural_t<result_t> result{ };
-			result.m_value = static_cast<T>( lhs ) / static_cast<U>( rhs );
-			return result;
+			return natural_t<result_t>{ static_cast<T>( lhs ) /
+			                            static_cast<U>( rhs ) };
 		}
 
 		template<typename U>
 		friend constexpr auto operator%( natural_t const &lhs,
-		                                 natural_t<U> const &rhs ) noexcept {
+		                                 natural_t<U> const &rhs ) {
 			static_assert( daw::traits::has_modulus_operator_v<T, U>,
 			               "Modulus operator is not valid" );
 			using result_t = decltype( std::declval<T>( ) % std::declval<U>( ) );
-			natural_t<result_t> result{ };
-			result.m_value = static_cast<T>( lhs ) % static_cast<U>( rhs );
-			return result;
+			return natural_t<result_t>{ static_cast<T>( lhs ) %
+			                            static_cast<U>( rhs ) };
 		}
 	};
 
-- 
2.43.0


From 138a96bb7e34e96f2d053fb358dfd9a302b41996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:29 +0000
Subject: [PATCH 136/248] fix: cxmath::is_even is true for even numbers

---
 include/daw/daw_cxmath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_cxmath.h b/include/daw/daw_cxmath.h
index 76d1af0..bb2bb3d 100644
--- a/include/daw/daw_cxmath.h
+++ b/include/daw/daw_cxmath.h
@@ -1022,7 +1022,7 @@ namespace daw::cxmath {
 	                                            std::nullptr_t> = nullptr>
 	[[nodiscard]] inline constexpr bool is_even( Integer i ) noexcept {
 		return ( std::make_unsigned_t<daw::remove_cvref_t<Integer>>( i ) & 1U ) ==
-		       1U;
+		       0U;
 	}
 
 	template<typename Real, std::enable_if_t<std::is_floating_point_v<Real>,
-- 
2.43.0


From 5d10651d8eb59f206a86bb8d9d96e6b353143cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:29 +0000
Subject: [PATCH 137/248] fix: cxmath::count_leading_zeroes of a 128 bit value
 counts instead of calling itself

---
 include/daw/daw_cxmath.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_cxmath.h b/include/daw/daw_cxmath.h
index bb2bb3d..d8b909f 100644
--- a/include/daw/daw_cxmath.h
+++ b/include/daw/daw_cxmath.h
@@ -545,14 +545,14 @@ namespace daw::cxmath {
 #endif
 #if defined( DAW_HAS_INT128 )
 	[[nodiscard]] DAW_ATTRIB_FLATTEN constexpr std::uint32_t
-	count_leading_zeros( daw::uint128_t v ) {
+	count_leading_zeroes( daw::uint128_t v ) {
 		if( v == 0 ) {
 			return 128U;
 		}
 		auto const h =
-		  count_leading_zeros( static_cast<std::uint64_t>( v >> 64ULL ) );
+		  count_leading_zeroes( static_cast<std::uint64_t>( v >> 64ULL ) );
 		if( h == 64U ) {
-			return count_leading_zeros( static_cast<std::uint64_t>( v ) );
+			return 64U + count_leading_zeroes( static_cast<std::uint64_t>( v ) );
 		}
 		return h;
 	}
-- 
2.43.0


From 51527143ad165fdc5c855aa4f3766de1acf7f6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:29 +0000
Subject: [PATCH 138/248] fix: cxmath::copy_sign of integers can be called

---
 include/daw/daw_cxmath.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_cxmath.h b/include/daw/daw_cxmath.h
index d8b909f..7191313 100644
--- a/include/daw/daw_cxmath.h
+++ b/include/daw/daw_cxmath.h
@@ -1142,7 +1142,8 @@ namespace daw::cxmath {
 	         std::enable_if_t<
 	           ( (daw::is_integral_v<Number> and daw::is_integral_v<Number2>) or
 	             not( std::is_floating_point_v<Number> and
-	                  std::is_floating_point_v<Number2> ) )> = nullptr
+	                  std::is_floating_point_v<Number2> ) ),
+	           std::nullptr_t> = nullptr
 #endif
 	         >
 	[[nodiscard]] constexpr Number copy_sign( Number x, Number2 s ) noexcept {
-- 
2.43.0


From 711397bc7adbbf70cab0546272b39498987da3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:29 +0000
Subject: [PATCH 139/248] fix: cxmath::set_exponent keeps sign and significand
 when the exponent is zero

---
 include/daw/daw_cxmath.h | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/include/daw/daw_cxmath.h b/include/daw/daw_cxmath.h
index 7191313..955b684 100644
--- a/include/daw/daw_cxmath.h
+++ b/include/daw/daw_cxmath.h
@@ -185,9 +185,6 @@ namespace daw::cxmath {
 		  std::enable_if_t<is_matching_v<Real, UInt>, std::nullptr_t> = nullptr>
 		[[nodiscard]] inline constexpr UInt set_exponent_impl( UInt dint,
 		                                                       std::int32_t exp ) {
-			if( exp == 0 ) {
-				return DAW_BIT_CAST( UInt, Real{ 1.0 } );
-			}
 			exp += exponent_bias_v<Real>;
 			UInt new_exp = static_cast<UInt>( exp ) << exponent_start_bit_v<Real>;
 			dint &= not_exponent_mask_v<Real>;
-- 
2.43.0


From 4e2186d6202d6cbc06963bdfa34d8b771fe144f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:29 +0000
Subject: [PATCH 140/248] fix: cxmath::pow2 reaches the smallest normal powers

---
 include/daw/daw_cxmath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_cxmath.h b/include/daw/daw_cxmath.h
index 955b684..2df08c4 100644
--- a/include/daw/daw_cxmath.h
+++ b/include/daw/daw_cxmath.h
@@ -777,7 +777,7 @@ namespace daw::cxmath {
 #if defined( DAW_CX_BIT_CAST )
 		if( exp >= daw::numeric_limits<Real>::max_exponent ) {
 			return daw::numeric_limits<Real>::infinity( );
-		} else if( exp <= daw::numeric_limits<Real>::min_exponent ) {
+		} else if( exp < daw::numeric_limits<Real>::min_exponent - 1 ) {
 			return Real{ 0 };
 		}
 		auto result = cxmath_impl::set_exponent_impl<Real>(
-- 
2.43.0


From 4daf34e7276277486bb5d4cc86328626d345cbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:29 +0000
Subject: [PATCH 141/248] fix: cxmath::sqrt of negative numbers is not a
 number, of subnormal ones accurate

---
 include/daw/daw_cxmath.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_cxmath.h b/include/daw/daw_cxmath.h
index 2df08c4..cda1b61 100644
--- a/include/daw/daw_cxmath.h
+++ b/include/daw/daw_cxmath.h
@@ -1112,12 +1112,22 @@ namespace daw::cxmath {
 		case fp_classes::nan:
 			return std::numeric_limits<Real>::quiet_NaN( );
 		case fp_classes::infinity:
-			return std::numeric_limits<Real>::infinity( );
 		case fp_classes::subnormal:
 		case fp_classes::normal:
 		default:
 			break;
 		}
+		if( r < Real{ 0 } ) {
+			return std::numeric_limits<Real>::quiet_NaN( );
+		}
+		if( r > max_value<Real> ) {
+			return r;
+		}
+		if( r < (daw::numeric_limits<Real>::min)( ) ) {
+			// Bring subnormal values into the normal range first
+			constexpr std::int32_t half = daw::numeric_limits<Real>::digits / 2 + 1;
+			return sqrt_fast( r * pow2<Real>( 2 * half ) ) * pow2<Real>( -half );
+		}
 		return sqrt_fast( r );
 #else
 		if( DAW_UNLIKELY( r <= Real{ 0 } ) ) {
-- 
2.43.0


From d6c1270f3dc8d6bb343534a1d47e8a4f32801f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:29 +0000
Subject: [PATCH 142/248] fix: cxmath::adjust_exponent compiles

---
 include/daw/daw_cxmath.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_cxmath.h b/include/daw/daw_cxmath.h
index cda1b61..a2f31b4 100644
--- a/include/daw/daw_cxmath.h
+++ b/include/daw/daw_cxmath.h
@@ -1049,7 +1049,7 @@ namespace daw::cxmath {
 		template<
 		  typename Real, typename UInt,
 		  std::enable_if_t<is_matching_v<Real, UInt>, std::nullptr_t> = nullptr>
-		constexpr Real adjust_exponent_impl( UInt u, std::int32_t exponent ) {
+		constexpr UInt adjust_exponent_impl( UInt u, std::int32_t exponent ) {
 			auto current_expoent = get_exponent_impl<Real>( u );
 			current_expoent += exponent;
 			return set_exponent_impl<Real>( u, current_expoent );
@@ -1058,7 +1058,7 @@ namespace daw::cxmath {
 	template<typename Real, std::enable_if_t<std::is_floating_point_v<Real>,
 	                                         std::nullptr_t> = nullptr>
 	constexpr Real adjust_exponent( Real r, std::int32_t exponent ) {
-		auto result = cxmath_impl::adjust_exponent_impl(
+		auto result = cxmath_impl::adjust_exponent_impl<Real>(
 		  DAW_BIT_CAST( cxmath_impl::unsigned_float_type_t<Real>, r ), exponent );
 		return DAW_BIT_CAST( Real, result );
 	}
-- 
2.43.0


From af7f8c4e0daab723a92bd87ba7ce88b6d6d4dd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:55 +0000
Subject: [PATCH 143/248] fix: function_view: copy a view instead of viewing it

---
 include/daw/daw_function_view.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_function_view.h b/include/daw/daw_function_view.h
index fcd85d6..1cade5f 100644
--- a/include/daw/daw_function_view.h
+++ b/include/daw/daw_function_view.h
@@ -104,7 +104,10 @@ namespace daw {
 	struct function_view<Result( Args... )> {
 		function_view_table_storage<Result, Args...> function_view_table;
 
-		template<typename Func>
+		template<
+		  typename Func,
+		  std::enable_if_t<not std::is_same_v<std::decay_t<Func>, function_view>,
+		                   std::nullptr_t> = nullptr>
 		constexpr function_view( Func &&f )
 		  : function_view_table(
 		      function_view_table_storage<Result, Args...>::make( f ) ) {}
@@ -118,7 +121,10 @@ namespace daw {
 	struct function_view<void( Args... )> {
 		function_view_table_storage<void, Args...> function_view_table;
 
-		template<typename Func>
+		template<
+		  typename Func,
+		  std::enable_if_t<not std::is_same_v<std::decay_t<Func>, function_view>,
+		                   std::nullptr_t> = nullptr>
 		constexpr function_view( Func &&f )
 		  : function_view_table(
 		      function_view_table_storage<void, Args...>::make( DAW_FWD( f ) ) ) {}
-- 
2.43.0


From 6d7793ffa8143bc92793ceb59b37965a67078ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:55 +0000
Subject: [PATCH 144/248] fix: function_view: forward reference parameters as
 declared

---
 include/daw/daw_function_view.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/daw/daw_function_view.h b/include/daw/daw_function_view.h
index 1cade5f..c27c67d 100644
--- a/include/daw/daw_function_view.h
+++ b/include/daw/daw_function_view.h
@@ -41,19 +41,19 @@ namespace daw {
 			using fn_t = std::remove_reference_t<Func>;
 			if constexpr( std::is_pointer_v<fn_t> ) {
 				return { data_t{ f }, []( data_t const &d, Args... args ) -> Result {
-					        return ( d.fp_storage )( std::move( args )... );
+					        return ( d.fp_storage )( std::forward<Args>( args )... );
 				        } };
 			} else if constexpr( std::is_empty_v<fn_t> and
 			                     std::is_default_constructible_v<fn_t> ) {
 				return { data_t{ nullptr },
 				         []( data_t const &, Args... args ) -> Result {
-					         return fn_t{ }( std::move( args )... );
+					         return fn_t{ }( std::forward<Args>( args )... );
 				         } };
 			} else {
 				return { data_t{ DAW_BIT_CAST( ref_buffer_t, std::addressof( f ) ) },
 				         +[]( data_t const &d, Args... args ) -> Result {
 					         return ( *DAW_BIT_CAST( fn_t const *, d.ref_storage ) )(
-					           std::move( args )... );
+					           std::forward<Args>( args )... );
 				         } };
 			}
 		}
@@ -80,18 +80,18 @@ namespace daw {
 			using fn_t = std::remove_reference_t<Func>;
 			if constexpr( std::is_pointer_v<fn_t> ) {
 				return { data_t{ f }, []( data_t const &d, Args... args ) -> void {
-					        ( d.fp_storage )( std::move( args )... );
+					        ( d.fp_storage )( std::forward<Args>( args )... );
 				        } };
 			} else if constexpr( std::is_empty_v<fn_t> and
 			                     std::is_default_constructible_v<fn_t> ) {
 				return { data_t{ nullptr }, []( data_t const &, Args... args ) -> void {
-					        fn_t{ }( std::move( args )... );
+					        fn_t{ }( std::forward<Args>( args )... );
 				        } };
 			} else {
 				return { data_t{ DAW_BIT_CAST( ref_buffer_t, std::addressof( f ) ) },
 				         +[]( data_t const &d, Args... args ) -> void {
 					         ( *DAW_BIT_CAST( fn_t const *, d.ref_storage ) )(
-					           std::move( args )... );
+					           std::forward<Args>( args )... );
 				         } };
 			}
 		}
@@ -114,7 +114,7 @@ namespace daw {
 
 		constexpr Result operator( )( Args... args ) const {
 			return function_view_table.call_ptr( function_view_table.data,
-			                                     std::move( args )... );
+			                                     std::forward<Args>( args )... );
 		}
 	};
 	template<typename... Args>
@@ -131,7 +131,7 @@ namespace daw {
 
 		constexpr void operator( )( Args... args ) const {
 			function_view_table.call_ptr( function_view_table.data,
-			                              std::move( args )... );
+			                              std::forward<Args>( args )... );
 		}
 	};
 } // namespace daw
-- 
2.43.0


From f155575ce3e22db38cb0ff7404f117afe897462d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:55 +0000
Subject: [PATCH 145/248] fix: function_table operator( ): pass allow_empty on

---
 include/daw/daw_function_table.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_function_table.h b/include/daw/daw_function_table.h
index ab42e89..35c3099 100644
--- a/include/daw/daw_function_table.h
+++ b/include/daw/daw_function_table.h
@@ -129,7 +129,7 @@ namespace daw {
 
 		template<bool allow_empty = false, typename... Args>
 		constexpr R operator( )( size_t idx, Args &&...args ) const {
-			return call( idx, DAW_FWD( args )... );
+			return call<allow_empty>( idx, DAW_FWD( args )... );
 		}
 
 		template<typename Value>
-- 
2.43.0


From 88f25e2d728fe68f5a63ede1fe3a1a4fb2b5ae87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:55 +0000
Subject: [PATCH 146/248] fix: sbo_storage: const get of a local value

---
 include/daw/daw_sbo.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_sbo.h b/include/daw/daw_sbo.h
index 6c343de..ea15fe2 100644
--- a/include/daw/daw_sbo.h
+++ b/include/daw/daw_sbo.h
@@ -46,11 +46,11 @@ namespace daw {
 		template<typename T, typename AllocatedType = T>
 		[[nodiscard]] T const *get( ) const {
 			if constexpr( sizeof( AllocatedType ) <= storage_size ) {
-				assert( engaged == engaged_types::allocated );
+				assert( engaged == engaged_types::local );
 				return reinterpret_cast<T const *>( &data );
 			} else {
 				assert( engaged == engaged_types::allocated );
-				return *reinterpret_cast<T const **>( &data );
+				return *reinterpret_cast<T const *const *>( &data );
 			}
 		}
 
-- 
2.43.0


From 64d5cf46fbb5b0e0fd44c1a3ae63090f55b2cce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:55 +0000
Subject: [PATCH 147/248] fix: stack function: copy and move the stored
 callable instead of its bytes, keep lvalue callables by value

---
 include/daw/daw_stack_function.h | 52 +++++++++++++++++++++++++++-----
 1 file changed, 45 insertions(+), 7 deletions(-)

diff --git a/include/daw/daw_stack_function.h b/include/daw/daw_stack_function.h
index b8b025c..57c4931 100644
--- a/include/daw/daw_stack_function.h
+++ b/include/daw/daw_stack_function.h
@@ -20,6 +20,7 @@
 #include "daw/traits/daw_traits_remove_cvref.h"
 
 #include <cstddef>
+#include <exception>
 #include <functional>
 #include <memory>
 #include <new>
@@ -46,16 +47,24 @@ namespace daw {
 				clean( );
 			}
 
-			function_storage( function_storage const & ) = default;
-			function_storage( function_storage && ) = default;
+			function_storage( function_storage const &rhs ) {
+				rhs.ptr( )->copy_to( &m_data );
+			}
+
+			function_storage( function_storage &&rhs ) noexcept {
+				rhs.ptr( )->move_to( &m_data );
+			}
+
+			function_storage( Base const &rhs ) {
+				rhs.copy_to( &m_data );
+			}
 
 			function_storage &operator=( function_storage const &rhs ) {
 				if( this == &rhs ) {
 					return *this;
 				}
-				clean( );
-				m_data = rhs.m_data;
-				return *this;
+				// copy first, copying can throw
+				return *this = function_storage( rhs );
 			}
 
 			function_storage &operator=( function_storage &&rhs ) noexcept {
@@ -63,7 +72,7 @@ namespace daw {
 					return *this;
 				}
 				clean( );
-				m_data = std::move( rhs.m_data );
+				rhs.ptr( )->move_to( &m_data );
 				return *this;
 			}
 
@@ -121,6 +130,10 @@ namespace daw {
 			virtual Result operator( )( FuncArgs... ) const = 0;
 			virtual Result operator( )( FuncArgs... ) = 0;
 			[[nodiscard]] virtual bool empty( ) const = 0;
+			// construct a copy of this at ptr
+			virtual void copy_to( void *ptr ) const = 0;
+			// move construct from this at ptr
+			virtual void move_to( void *ptr ) noexcept = 0;
 		};
 
 		template<typename Result, typename... FuncArgs>
@@ -136,6 +149,14 @@ namespace daw {
 			[[nodiscard]] bool empty( ) const override {
 				return true;
 			}
+
+			void copy_to( void *ptr ) const override {
+				new( ptr ) empty_child( *this );
+			}
+
+			void move_to( void *ptr ) noexcept override {
+				new( ptr ) empty_child( *this );
+			}
 		};
 
 		template<typename...>
@@ -197,6 +218,19 @@ namespace daw {
 			[[nodiscard]] bool empty( ) const override {
 				return empty_impl( m_func );
 			}
+
+			void copy_to( void *ptr ) const override {
+				if constexpr( std::is_copy_constructible_v<Func> ) {
+					new( ptr ) function_child( *this );
+				} else {
+					// not copyable
+					std::terminate( );
+				}
+			}
+
+			void move_to( void *ptr ) noexcept override {
+				new( ptr ) function_child( std::move( *this ) );
+			}
 		};
 
 		template<size_t MaxSize, typename function_base, typename function_child,
@@ -237,6 +271,9 @@ namespace daw {
 
 	template<size_t MaxSize, typename Result, typename... FuncArgs>
 	class function<MaxSize, Result( FuncArgs... )> {
+		template<size_t, typename>
+		friend class function;
+
 		using function_base = func_impl::function_base<Result, FuncArgs...>;
 		using empty_child = func_impl::empty_child<Result, FuncArgs...>;
 
@@ -250,7 +287,8 @@ namespace daw {
 		decltype( auto ) store_if_not_empty( Func &&f ) {
 			func_impl::validate_size<sizeof( std::decay_t<Func> ), MaxSize>( );
 			return func_impl::store_if_not_empty<MaxSize, function_base,
-			                                     function_child<Func>, empty_child>(
+			                                     function_child<std::decay_t<Func>>,
+			                                     empty_child>(
 			  DAW_FWD( f ) );
 		}
 
-- 
2.43.0


From 9cd2633bc12d65f462577708c2964f79c412db6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:55 +0000
Subject: [PATCH 148/248] fix: shared_function, bind_front: include what they
 use

---
 include/daw/daw_bind_front.h      | 2 ++
 include/daw/daw_shared_function.h | 1 +
 2 files changed, 3 insertions(+)

diff --git a/include/daw/daw_bind_front.h b/include/daw/daw_bind_front.h
index 979dba6..facf2a8 100644
--- a/include/daw/daw_bind_front.h
+++ b/include/daw/daw_bind_front.h
@@ -8,6 +8,8 @@
 
 #pragma once
 
+#include "daw_move.h"
+
 #include <tuple>
 #include <type_traits>
 
diff --git a/include/daw/daw_shared_function.h b/include/daw/daw_shared_function.h
index f0c9550..d81b79d 100644
--- a/include/daw/daw_shared_function.h
+++ b/include/daw/daw_shared_function.h
@@ -10,6 +10,7 @@
 
 #include "daw/daw_cpp_feature_check.h"
 #include "daw/daw_cx_atomic.h"
+#include "daw/daw_ensure.h"
 #include "daw/daw_move.h"
 #include "daw/daw_utility.h"
 #include "daw/traits/daw_copy_cvref_t.h"
-- 
2.43.0


From 05f2042798ea11c7d5c81f6a295e93a39fca6910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:55 +0000
Subject: [PATCH 149/248] fix: graph nodes are equal only when both the graph
 and the id are

---
 include/daw/daw_graph.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/daw/daw_graph.h b/include/daw/daw_graph.h
index 49bd0ae..77df31c 100644
--- a/include/daw/daw_graph.h
+++ b/include/daw/daw_graph.h
@@ -209,15 +209,15 @@ namespace daw {
 		}
 
 		template<typename Rhs>
-		constexpr bool operator==( Rhs const &rhs ) noexcept {
+		constexpr bool operator==( Rhs const &rhs ) const noexcept {
 			static_assert( is_graph_node_v<Rhs>,
 			               "Can only do comparison with another graph node proxy" );
-			return m_node_id == rhs.id( ) or
+			return m_node_id == rhs.id( ) and
 			       std::equal_to<>{ }( m_graph, rhs.graph( ) );
 		}
 
 		template<typename Rhs>
-		constexpr bool operator!=( Rhs const &rhs ) noexcept {
+		constexpr bool operator!=( Rhs const &rhs ) const noexcept {
 			static_assert( is_graph_node_v<Rhs>,
 			               "Can only do comparison with another graph node proxy" );
 			return m_node_id != rhs.id( ) or
@@ -225,7 +225,7 @@ namespace daw {
 		}
 
 		template<typename Rhs>
-		constexpr bool operator<( Rhs const &rhs ) noexcept {
+		constexpr bool operator<( Rhs const &rhs ) const noexcept {
 			static_assert( is_graph_node_v<Rhs>,
 			               "Can only do comparison with another graph node proxy" );
 			daw::exception::dbg_precondition_check(
@@ -308,15 +308,15 @@ namespace daw {
 		}
 
 		template<typename Rhs>
-		constexpr bool operator==( Rhs const &rhs ) noexcept {
+		constexpr bool operator==( Rhs const &rhs ) const noexcept {
 			static_assert( is_graph_node_v<Rhs>,
 			               "Can only do comparison with another graph node proxy" );
-			return m_node_id == rhs.id( ) or
+			return m_node_id == rhs.id( ) and
 			       std::equal_to<>{ }( m_graph, rhs.graph( ) );
 		}
 
 		template<typename Rhs>
-		constexpr bool operator!=( Rhs const &rhs ) noexcept {
+		constexpr bool operator!=( Rhs const &rhs ) const noexcept {
 			static_assert( is_graph_node_v<Rhs>,
 			               "Can only do comparison with another graph node proxy" );
 			return m_node_id != rhs.id( ) or
@@ -324,7 +324,7 @@ namespace daw {
 		}
 
 		template<typename Rhs>
-		constexpr bool operator<( Rhs const &rhs ) noexcept {
+		constexpr bool operator<( Rhs const &rhs ) const noexcept {
 			static_assert( is_graph_node_v<Rhs>,
 			               "Can only do comparison with another graph node proxy" );
 			daw::exception::dbg_precondition_check(
-- 
2.43.0


From 81e705a09a6fcaa271742bdee6408731f1b93429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:55 +0000
Subject: [PATCH 150/248] fix: graph walks: sort with a strict weak ordering

---
 include/daw/daw_graph_algorithm.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_graph_algorithm.h b/include/daw/daw_graph_algorithm.h
index 07f5d56..482122c 100644
--- a/include/daw/daw_graph_algorithm.h
+++ b/include/daw/daw_graph_algorithm.h
@@ -97,8 +97,8 @@ namespace daw {
 					auto child_nodes = graph_alg_impl::get_child_nodes( graph, node );
 					if constexpr( perform_sort_v ) {
 						std::sort( std::begin( child_nodes ), std::end( child_nodes ),
-						           [&]( auto &&...args ) {
-							           return not comp( DAW_FWD( args )... );
+						           [&]( auto const &lhs, auto const &rhs ) {
+							           return comp( rhs, lhs );
 						           } );
 					}
 					for( auto child : child_nodes ) {
@@ -182,8 +182,8 @@ namespace daw {
 
 					std::sort( children.begin( ), children.end( ),
 					           [&]( daw::node_id_t left_id, daw::node_id_t right_id ) {
-						           return not ord( graph.get_node( left_id ).value( ),
-						                           graph.get_node( right_id ).value( ) );
+						           return ord( graph.get_node( right_id ).value( ),
+						                       graph.get_node( left_id ).value( ) );
 					           } );
 					path.reserve( path.size( ) + children.size( ) );
 					std::copy( children.begin( ), children.end( ),
-- 
2.43.0


From 49b1fc74b284d6bddf59a0fa58fed4ce51588915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:55 +0000
Subject: [PATCH 151/248] fix: topological_sorted_iterator: const end( )
 compiles, reverse iteration starts at the end

---
 include/daw/daw_graph_algorithm.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_graph_algorithm.h b/include/daw/daw_graph_algorithm.h
index 482122c..889f0f3 100644
--- a/include/daw/daw_graph_algorithm.h
+++ b/include/daw/daw_graph_algorithm.h
@@ -305,7 +305,7 @@ namespace daw {
 
 		[[nodiscard]] topological_sorted_iterator end( ) const {
 			auto result = *this;
-			result.m_iterator = result.end( );
+			result.m_iterator = m_nodes->end( );
 			return result;
 		}
 
@@ -425,7 +425,7 @@ namespace daw {
 			}
 
 			[[nodiscard]] std::reverse_iterator<iterator_t> rbegin( ) const {
-				return std::reverse_iterator<iterator_t>( first );
+				return std::reverse_iterator<iterator_t>( last );
 			}
 
 			[[nodiscard]] iterator_t end( ) const {
@@ -433,7 +433,7 @@ namespace daw {
 			}
 
 			[[nodiscard]] std::reverse_iterator<iterator_t> rend( ) const {
-				return std::reverse_iterator<iterator_t>( last );
+				return std::reverse_iterator<iterator_t>( first );
 			}
 
 			[[nodiscard]] size_t size( ) const noexcept {
@@ -465,7 +465,7 @@ namespace daw {
 			}
 
 			[[nodiscard]] std::reverse_iterator<iterator_t> begin( ) const {
-				return std::reverse_iterator<iterator_t>( first );
+				return std::reverse_iterator<iterator_t>( last );
 			}
 
 			[[nodiscard]] iterator_t rend( ) const {
@@ -473,7 +473,7 @@ namespace daw {
 			}
 
 			[[nodiscard]] std::reverse_iterator<iterator_t> end( ) const {
-				return std::reverse_iterator<iterator_t>( last );
+				return std::reverse_iterator<iterator_t>( first );
 			}
 
 			[[nodiscard]] size_t size( ) const noexcept {
-- 
2.43.0


From 9d90fdb73e45f82245b6255c8b347b6482d510f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:55 +0000
Subject: [PATCH 152/248] fix: fnv1a_hash_t on a C string: hash bytes above 127
 as bytes

---
 include/daw/daw_fnv1a_hash.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_fnv1a_hash.h b/include/daw/daw_fnv1a_hash.h
index 4622500..ba3c48c 100644
--- a/include/daw/daw_fnv1a_hash.h
+++ b/include/daw/daw_fnv1a_hash.h
@@ -127,7 +127,8 @@ namespace daw {
 		operator( )( char const *ptr ) const noexcept {
 			auto hash = fnv1a_impl::fnv_offset;
 			while( *ptr != '\0' ) {
-				hash = hash ^ static_cast<fnv1a_uint_t>( *ptr );
+				hash = hash ^ static_cast<fnv1a_uint_t>(
+				                static_cast<unsigned char>( *ptr ) );
 				hash *= fnv1a_impl::fnv_prime;
 				DAW_UNSAFE_BUFFER_FUNC_START
 				++ptr;
-- 
2.43.0


From 5f2ccad1b43fb0ac4c6dabecab0e5a214a67a55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:55 +0000
Subject: [PATCH 153/248] fix: metro hash64: the last byte is unsigned

---
 include/daw/daw_metro_hash.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_metro_hash.h b/include/daw/daw_metro_hash.h
index 8c7df3b..61372f1 100644
--- a/include/daw/daw_metro_hash.h
+++ b/include/daw/daw_metro_hash.h
@@ -116,7 +116,8 @@ namespace daw::metro {
 		}
 
 		if(not buff.empty( )) {
-			hash += static_cast<uint64_t>(buff.front( )) * k3;
+			hash +=
+				static_cast<uint64_t>(static_cast<unsigned char>(buff.front( ))) * k3;
 			hash ^= metro_impl::rotr<37U>( hash ) * k1;
 			buff.remove_prefix( );
 		}
-- 
2.43.0


From 507df92886672807b6eb83e2471c01f23e8a5253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:55 +0000
Subject: [PATCH 154/248] fix: siphash24: bytes above 127 are not sign extended

---
 include/daw/daw_sip_hash.h | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/daw/daw_sip_hash.h b/include/daw/daw_sip_hash.h
index 7f3f0d9..8363e17 100644
--- a/include/daw/daw_sip_hash.h
+++ b/include/daw/daw_sip_hash.h
@@ -52,14 +52,12 @@ namespace daw {
 		template<typename Byte>
 		constexpr uint64_t to_u64( Byte const *const ptr ) noexcept {
 			static_assert( sizeof( Byte ) == 1U );
-			return static_cast<uint64_t>( ptr[0] ) |
-			       static_cast<uint64_t>( ptr[1] ) << 8U |
-			       static_cast<uint64_t>( ptr[2] ) << 16U |
-			       static_cast<uint64_t>( ptr[3] ) << 24U |
-			       static_cast<uint64_t>( ptr[4] ) << 32U |
-			       static_cast<uint64_t>( ptr[5] ) << 40U |
-			       static_cast<uint64_t>( ptr[6] ) << 48U |
-			       static_cast<uint64_t>( ptr[7] ) << 56U;
+			auto const byte = [ptr]( size_t n ) {
+				return static_cast<uint64_t>( static_cast<unsigned char>( ptr[n] ) );
+			};
+			return byte( 0 ) | byte( 1 ) << 8U | byte( 2 ) << 16U | byte( 3 ) << 24U |
+			       byte( 4 ) << 32U | byte( 5 ) << 40U | byte( 6 ) << 48U |
+			       byte( 7 ) << 56U;
 		}
 
 		template<typename Byte>
-- 
2.43.0


From ca24262a13318544a8c1d8aba2576910c168c55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:55 +0000
Subject: [PATCH 155/248] fix: generic_hash_t: hashing the bytes behind a
 pointer uses them

---
 include/daw/daw_generic_hash.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_generic_hash.h b/include/daw/daw_generic_hash.h
index 8971618..3184a6c 100644
--- a/include/daw/daw_generic_hash.h
+++ b/include/daw/daw_generic_hash.h
@@ -183,9 +183,9 @@ namespace daw {
 		template<typename T>
 		constexpr hash_value_t operator( )( T const *const ptr ) const noexcept {
 			auto hash = hash_init;
-			auto bptr = static_cast<uint8_t const *const>( ptr );
+			auto bptr = reinterpret_cast<uint8_t const *>( ptr );
 			for( std::size_t n = 0; n < sizeof( T ); ++n ) {
-				append_hash( hash, bptr[n] );
+				hash = append_hash( hash, bptr[n] );
 			}
 			return hash;
 		}
-- 
2.43.0


From f82097376c7e99630b430a7f814cabbd7a7fb547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:56 +0000
Subject: [PATCH 156/248] fix: static_hash_t: a full table is reported instead
 of written past its end, const lookup compiles

---
 include/daw/static_hash_table.h | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/include/daw/static_hash_table.h b/include/daw/static_hash_table.h
index 5b95b77..a5763b8 100644
--- a/include/daw/static_hash_table.h
+++ b/include/daw/static_hash_table.h
@@ -11,10 +11,16 @@
 #include "daw/ciso646.h"
 #include "daw/daw_algorithm.h"
 #include "daw/daw_arith_traits.h"
+#include "daw/daw_check_exceptions.h"
 #include "daw/daw_fnv1a_hash.h"
 #include "daw/daw_remove_cvref.h"
 
+#include <cstddef>
+#include <cstdint>
+#include <initializer_list>
 #include <limits>
+#include <stdexcept>
+#include <utility>
 
 namespace daw {
 	template<typename T, std::size_t Capacity>
@@ -89,6 +95,15 @@ namespace daw {
 			return Capacity;
 		}
 
+		[[nodiscard]] constexpr std::size_t
+		find_or_throw( std::uint64_t hash ) const {
+			auto const pos = find_impl( hash );
+			if( pos >= Capacity ) {
+				DAW_THROW_OR_TERMINATE( std::out_of_range, "Hash table is full" );
+			}
+			return pos;
+		}
+
 		[[nodiscard]] constexpr std::size_t
 		find_next_empty( std::size_t const pos ) const {
 			for( std::size_t n = pos; n < Capacity; ++n ) {
@@ -108,15 +123,13 @@ namespace daw {
 
 	public:
 		constexpr static_hash_t( )
-		  : m_values{ } {
-			daw::algorithm::fill_n( m_values.begin( ), Capacity, hash_item{ } );
-		}
+		  : m_values{ } {}
 
 		constexpr static_hash_t(
 		  std::initializer_list<std::pair<char const *const, value_type>> items ) {
 			for( auto const &item : items ) {
 				auto const hash = hash_fn( item.first );
-				auto const pos = find_impl( hash );
+				auto const pos = find_or_throw( hash );
 				m_values[pos].hash_value = hash;
 				m_values[pos].value = item.second;
 			}
@@ -127,7 +140,7 @@ namespace daw {
 		  std::initializer_list<std::pair<K, value_type>> items ) {
 			for( auto const &item : items ) {
 				auto const hash = hash_fn( item.first );
-				auto const pos = find_impl( hash );
+				auto const pos = find_or_throw( hash );
 				m_values[pos].hash_value = hash;
 				m_values[pos].value = std::move( item.second );
 			}
@@ -142,14 +155,14 @@ namespace daw {
 		template<typename K>
 		[[nodiscard]] constexpr reference operator[]( K const &key ) {
 			auto const hash = hash_fn( key );
-			auto const pos = find_impl( hash );
+			auto const pos = find_or_throw( hash );
 			m_values[pos].hash_value = hash;
 			return m_values[pos].value;
 		}
 
 		[[nodiscard]] constexpr reference operator[]( char const *const key ) {
 			auto const hash = hash_fn( key );
-			auto const pos = find_impl( hash );
+			auto const pos = find_or_throw( hash );
 			m_values[pos].hash_value = hash;
 			return m_values[pos].value;
 		}
@@ -157,15 +170,14 @@ namespace daw {
 		template<typename K>
 		[[nodiscard]] constexpr const_reference operator[]( K const &key ) const {
 			auto const hash = hash_fn( key );
-			auto const pos = find_impl( hash );
-			m_values[pos].hash_value = hash;
+			auto const pos = find_or_throw( hash );
 			return m_values[pos].value;
 		}
 
 		[[nodiscard]] constexpr const_reference
 		operator[]( char const *const key ) const {
 			auto hash = hash_fn( key );
-			auto const pos = find_impl( hash );
+			auto const pos = find_or_throw( hash );
 			return m_values[pos].value;
 		}
 	}; // static_hash_t
-- 
2.43.0


From cb971a9163abd3fc86a71be6c4a265309c78026b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:56 +0000
Subject: [PATCH 157/248] fix: hash_set_t: erase and size compile, erasing
 keeps the other keys reachable

---
 include/daw/daw_hash_set.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_hash_set.h b/include/daw/daw_hash_set.h
index 9aa39cf..fc6a884 100644
--- a/include/daw/daw_hash_set.h
+++ b/include/daw/daw_hash_set.h
@@ -17,6 +17,7 @@
 #include <cstdint>
 #include <functional>
 #include <optional>
+#include <stdexcept>
 #include <vector>
 
 namespace daw {
@@ -72,10 +73,19 @@ namespace daw {
 		std::optional<std::size_t> erase( Key const &key ) {
 			std::uint64_t const hash = Hash{ }( key );
 			auto const index = find_index( hash, key );
-			if( not index ) {
+			if( not index or not m_indices[*index] ) {
 				return { };
 			}
-			m_indices[index] = std::nullopt;
+			m_indices[*index] = std::nullopt;
+			// keys after the gap may have been displaced past it
+			auto const next = [&]( std::size_t n ) {
+				return n + 1 < m_indices.size( ) ? n + 1 : std::size_t{ 0 };
+			};
+			for( std::size_t n = next( *index ); m_indices[n]; n = next( n ) ) {
+				auto const displaced = Key( *m_indices[n] );
+				m_indices[n] = std::nullopt;
+				m_indices[*find_index( Hash{ }( displaced ), displaced )] = displaced;
+			}
 			return index;
 		}
 
@@ -99,8 +109,8 @@ namespace daw {
 		[[nodiscard]] std::size_t size( ) const noexcept {
 			return daw::algorithm::accumulate( std::begin( m_indices ),
 			                                   std::end( m_indices ), std::size_t{ },
-			                                   []( auto const &opt ) {
-				                                   return opt.has_value( ) ? 1U : 0U;
+			                                   []( std::size_t sz, auto const &opt ) {
+				                                   return opt ? sz + 1U : sz;
 			                                   } );
 		}
 	};
-- 
2.43.0


From 9c5dfe85b7ab2bc418a0ad2b8b790cd1257e6527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:56 +0000
Subject: [PATCH 158/248] fix: perfect_hash_table: a bucket of one key takes
 one slot, keys that are not in the table are not found

---
 include/daw/daw_min_perfect_hash.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/daw/daw_min_perfect_hash.h b/include/daw/daw_min_perfect_hash.h
index e5a9d0e..8ad6fa6 100644
--- a/include/daw/daw_min_perfect_hash.h
+++ b/include/daw/daw_min_perfect_hash.h
@@ -155,6 +155,14 @@ namespace daw {
 		                              ForwardIterator last ) {
 			daw::array<bucket_t<ForwardIterator>, m_num_buckets> buckets{ };
 
+			// A key of the table, never a default constructed one, marks the slots
+			// that stay unused.  Looking it up leads to its own slot.
+			if( first != last ) {
+				for( auto &key : m_keys ) {
+					key = first->first;
+				}
+			}
+
 			static_assert( std::is_default_constructible_v<ForwardIterator> );
 
 			daw::algorithm::iota( buckets.begin( ), buckets.end( ),
@@ -278,6 +286,7 @@ namespace daw {
 				m_salts[bucket.bucket_index] = -( static_cast<salt_type>( pos ) + 1 );
 				m_keys[pos] = bucket.items[0]->first;
 				m_values[pos] = bucket.items[0]->second;
+				return;
 			}
 
 			for( salt_type salt = 1;; ++salt ) {
-- 
2.43.0


From 43c39d493bca61cc5a440629f6b2000d037caf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:56 +0000
Subject: [PATCH 159/248] fix: perfect_hash_table: salts reach every bit of a
 hash, keys that agree in their low bits no longer hang the construction

---
 include/daw/daw_min_perfect_hash.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_min_perfect_hash.h b/include/daw/daw_min_perfect_hash.h
index 8ad6fa6..af057fa 100644
--- a/include/daw/daw_min_perfect_hash.h
+++ b/include/daw/daw_min_perfect_hash.h
@@ -19,6 +19,7 @@
 #include "daw/daw_swap.h"
 
 #include <cstddef>
+#include <cstdint>
 #include <functional>
 #include <limits>
 #include <new>
@@ -108,8 +109,12 @@ namespace daw {
 
 			uintmax_t const s = seed + 1;
 			uintmax_t const h = hash;
-			return static_cast<hash_result>(
+			std::uint64_t result = static_cast<std::uint64_t>(
 			  s ^ ( h + 0x9e3779b9ULL + ( s << 6ULL ) + ( s >> 2ULL ) ) );
+			// the low bits select the slot, let them depend on all of the hash
+			result = ( result ^ ( result >> 32U ) ) * 0xd6e8'feb8'6659'fd93ULL;
+			result = ( result ^ ( result >> 32U ) ) * 0xd6e8'feb8'6659'fd93ULL;
+			return static_cast<hash_result>( result ^ ( result >> 32U ) );
 		}
 	} // namespace mph_impl
 
-- 
2.43.0


From 68ff3eae603ca245a3c4a8c1dc2223d26f5ae9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:56 +0000
Subject: [PATCH 160/248] fix: fnv1a_hash of a string view: no ambiguity
 between std::size and daw::size

---
 include/daw/daw_fnv1a_hash.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/daw/daw_fnv1a_hash.h b/include/daw/daw_fnv1a_hash.h
index ba3c48c..ae1a0bc 100644
--- a/include/daw/daw_fnv1a_hash.h
+++ b/include/daw/daw_fnv1a_hash.h
@@ -186,8 +186,7 @@ namespace daw {
 	         std::enable_if_t<traits_is_sv::is_string_view_like_v<StringViewLike>,
 	                          std::nullptr_t> = nullptr>
 	[[nodiscard]] fnv1a_uint_t fnv1a_hash( StringViewLike &&sv ) {
-		using namespace std;
-		return fnv1a_hash( data( sv ), size( sv ) );
+		return fnv1a_hash( std::data( sv ), std::size( sv ) );
 	}
 
 	template<fnv1a_uint_t N>
-- 
2.43.0


From 5d7384fbd3bce925c967fcb04bec4dd040eb9038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:24 +0000
Subject: [PATCH 161/248] fix: apply the projection when a mapped range is read
 through its iterators, and offset the copy in iterator arithmetic

---
 include/daw/pipelines/map.h | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/daw/pipelines/map.h b/include/daw/pipelines/map.h
index e46a600..6bb58b1 100644
--- a/include/daw/pipelines/map.h
+++ b/include/daw/pipelines/map.h
@@ -72,23 +72,25 @@ namespace daw::pipelines {
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr value_type
 		operator[]( size_type n ) const requires( RandomIterator<Iterator> ) {
-			return std::invoke( m_func, raw_get( n ) );
+			return std::invoke( m_func, std::invoke( m_projection, raw_get( n ) ) );
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr value_type operator*( ) {
-			return std::invoke( m_func, *m_iter );
+			return std::invoke( m_func, std::invoke( m_projection, *m_iter ) );
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr value_type operator*( ) const {
-			return std::invoke( m_func, *m_iter );
+			return std::invoke( m_func, std::invoke( m_projection, *m_iter ) );
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr pointer operator->( ) {
-			return pointer( std::invoke( m_func, *m_iter ) );
+			return pointer(
+			  std::invoke( m_func, std::invoke( m_projection, *m_iter ) ) );
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr pointer operator->( ) const {
-			return pointer( std::invoke( m_func, *m_iter ) );
+			return pointer(
+			  std::invoke( m_func, std::invoke( m_projection, *m_iter ) ) );
 		}
 
 		DAW_ATTRIB_INLINE constexpr map_iterator &operator++( ) {
@@ -131,7 +133,7 @@ namespace daw::pipelines {
 		operator+( difference_type n ) const noexcept
 		  requires( RandomIterator<Iterator> ) {
 			map_iterator result = *this;
-			m_iter += n;
+			result.m_iter += n;
 			return result;
 		}
 
@@ -139,12 +141,13 @@ namespace daw::pipelines {
 		operator-( difference_type n ) const noexcept
 		  requires( RandomIterator<Iterator> ) {
 			map_iterator result = *this;
-			m_iter -= n;
+			result.m_iter -= n;
 			return result;
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr difference_type
-		operator-( map_iterator const &rhs ) requires( RandomIterator<Iterator> ) {
+		operator-( map_iterator const &rhs ) const
+		  requires( RandomIterator<Iterator> ) {
 			return m_iter - rhs.m_iter;
 		}
 
-- 
2.43.0


From 0da6f96ebf8a10d7c5b6624f976c032708811da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:24 +0000
Subject: [PATCH 162/248] fix: let element iterators be offset and subtracted

---
 include/daw/pipelines/elements.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/daw/pipelines/elements.h b/include/daw/pipelines/elements.h
index 8ab4499..9adeae5 100644
--- a/include/daw/pipelines/elements.h
+++ b/include/daw/pipelines/elements.h
@@ -122,7 +122,7 @@ namespace daw::pipelines::pimpl {
 		operator+( difference_type n ) const noexcept
 		  requires( RandomIterator<Iterator> ) {
 			element_iterator result = *this;
-			m_iter += n;
+			result.m_iter += n;
 			return result;
 		}
 
@@ -130,12 +130,12 @@ namespace daw::pipelines::pimpl {
 		operator-( difference_type n ) const noexcept
 		  requires( RandomIterator<Iterator> ) {
 			element_iterator result = *this;
-			m_iter -= n;
+			result.m_iter -= n;
 			return result;
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr difference_type
-		operator-( element_iterator const &rhs )
+		operator-( element_iterator const &rhs ) const
 		  requires( RandomIterator<Iterator> ) {
 			return m_iter - rhs.m_iter;
 		}
@@ -314,7 +314,7 @@ namespace daw::pipelines::pimpl {
 		operator+( difference_type n ) const noexcept
 		  requires( RandomIterator<Iterator> ) {
 			elements_iterator result = *this;
-			m_iter += n;
+			result.m_iter += n;
 			return result;
 		}
 
@@ -322,12 +322,12 @@ namespace daw::pipelines::pimpl {
 		operator-( difference_type n ) const noexcept
 		  requires( RandomIterator<Iterator> ) {
 			elements_iterator result = *this;
-			m_iter -= n;
+			result.m_iter -= n;
 			return result;
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr difference_type
-		operator-( elements_iterator const &rhs )
+		operator-( elements_iterator const &rhs ) const
 		  requires( RandomIterator<Iterator> ) {
 			return m_iter - rhs.m_iter;
 		}
-- 
2.43.0


From 58c27f44b9c2ef7874bb5457c30fb1e1b1f61882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:24 +0000
Subject: [PATCH 163/248] fix: flatten lvalue ranges, and skip empty inner
 ranges

---
 include/daw/pipelines/flatten.h | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/include/daw/pipelines/flatten.h b/include/daw/pipelines/flatten.h
index 8fab762..d1e92f5 100644
--- a/include/daw/pipelines/flatten.h
+++ b/include/daw/pipelines/flatten.h
@@ -70,15 +70,22 @@ namespace daw::pipelines::pimpl {
 			return std::end( m_range );
 		}
 
+		// Position at the first element, in order, of a non-empty inner range
+		constexpr void find_sub_range( ) {
+			while( m_range_first != raend( ) ) {
+				m_cur_first = std::begin( *m_range_first );
+				if( m_cur_first != std::end( *m_range_first ) ) {
+					return;
+				}
+				++m_range_first;
+			}
+			m_cur_first = sub_iterator_t{ };
+		}
+
 		DAW_ATTRIB_INLINE constexpr void inc_range( ) {
 			assert( m_range_first != raend( ) );
 			++m_range_first;
-			if( m_range_first == raend( ) ) {
-				m_cur_first = sub_iterator_t{ };
-				assert( *this == end( ) );
-			} else {
-				m_cur_first = std::begin( *m_range_first );
-			}
+			find_sub_range( );
 		}
 
 		DAW_ATTRIB_INLINE constexpr void inc_sub_range( ) {
@@ -98,10 +105,9 @@ namespace daw::pipelines::pimpl {
 		                           flatten_view> ) //
 		  explicit constexpr flatten_view( U &&r )
 		  : m_range( DAW_FWD( r ) )
-		  , m_range_first( rabegin( ) )
-		  , m_cur_first( m_range_first == raend( )
-		                   ? sub_iterator_t{ }
-		                   : std::begin( *m_range_first ) ) {}
+		  , m_range_first( rabegin( ) ) {
+			find_sub_range( );
+		}
 
 		[[nodiscard]] constexpr flatten_view begin( ) const {
 			return *this;
-- 
2.43.0


From 7abbb1d85ceb900ebc902d36457490e97419dbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:24 +0000
Subject: [PATCH 164/248] fix: TakeWhile keeps the leading elements that
 satisfy the predicate

---
 include/daw/pipelines/take.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/pipelines/take.h b/include/daw/pipelines/take.h
index 7ca3dfd..b3ce56d 100644
--- a/include/daw/pipelines/take.h
+++ b/include/daw/pipelines/take.h
@@ -52,13 +52,13 @@ namespace daw::pipelines::pimpl {
 
 		[[nodiscard]] constexpr auto operator( )( auto &&value ) const {
 			if( m_trigger ) {
-				return true;
+				return false;
 			}
 			if( not m_func( DAW_FWD( value ) ) ) {
 				m_trigger = true;
-				return true;
+				return false;
 			}
-			return false;
+			return true;
 		}
 	};
 	template<typename Fn>
-- 
2.43.0


From 0c7871ab3c605d24e8b749ba43ac979fbce1e4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:24 +0000
Subject: [PATCH 165/248] fix: bound the last chunk by the end of the range

---
 include/daw/pipelines/chunk.h | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/include/daw/pipelines/chunk.h b/include/daw/pipelines/chunk.h
index 246b438..45f149c 100644
--- a/include/daw/pipelines/chunk.h
+++ b/include/daw/pipelines/chunk.h
@@ -9,6 +9,7 @@
 #pragma once
 
 #include "daw/cpp_17.h"
+#include "daw/daw_algorithm.h"
 #include "daw/daw_attributes.h"
 #include "daw/daw_iterator_traits.h"
 #include "daw/daw_move.h"
@@ -33,14 +34,11 @@ namespace daw::pipelines::pimpl {
 		using m_range_t = daw::remove_cvrvref_t<R>;
 		m_range_t m_range{ };
 		iterator m_iter{ };
+		iterator m_last{ };
 		difference_type m_chunk_size = 1;
 
-		[[nodiscard]] constexpr auto ra_end( ) {
-			return std::end( m_range );
-		}
-
-		[[nodiscard]] constexpr auto ra_end( ) const {
-			return std::end( m_range );
+		[[nodiscard]] constexpr iterator ra_end( ) const {
+			return m_last;
 		}
 
 		constexpr void increment( ) {
@@ -59,11 +57,13 @@ namespace daw::pipelines::pimpl {
 		requires( not std::same_as<std::remove_reference_t<U>, chunk_view> ) //
 		  explicit chunk_view( U &&r )
 		  : m_range{ DAW_FWD( r ) }
-		  , m_iter{ std::begin( m_range ) } {}
+		  , m_iter{ std::begin( m_range ) }
+		  , m_last{ std::end( m_range ) } {}
 
 		explicit constexpr chunk_view( Range auto &&r, std::size_t chunk_size )
 		  : m_range{ DAW_FWD( r ) }
 		  , m_iter{ std::begin( m_range ) }
+		  , m_last{ std::end( m_range ) }
 		  , m_chunk_size{ static_cast<difference_type>( chunk_size ) } {}
 
 		[[nodiscard]] constexpr iterator &base( ) {
@@ -106,11 +106,13 @@ namespace daw::pipelines::pimpl {
 		}
 
 		[[nodiscard]] constexpr reference operator*( ) noexcept {
-			return range_t<iterator>{ m_iter, std::next( m_iter, m_chunk_size ) };
+			return range_t<iterator>{
+			  m_iter, daw::safe_next( m_iter, m_last, m_chunk_size ) };
 		}
 
 		[[nodiscard]] constexpr const_reference operator*( ) const noexcept {
-			return range_t<iterator>{ m_iter, std::next( m_iter, m_chunk_size ) };
+			return range_t<iterator>{
+			  m_iter, daw::safe_next( m_iter, m_last, m_chunk_size ) };
 		}
 
 		[[nodiscard]] constexpr bool
-- 
2.43.0


From 32979432de5fe78a9253009f5b3bd04c01125fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:24 +0000
Subject: [PATCH 166/248] fix: a range shorter than the window has no windows

---
 include/daw/pipelines/slide.h | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/daw/pipelines/slide.h b/include/daw/pipelines/slide.h
index c4bae70..1aff881 100644
--- a/include/daw/pipelines/slide.h
+++ b/include/daw/pipelines/slide.h
@@ -43,6 +43,18 @@ namespace daw::pipelines::pimpl {
 			return std::end( m_range );
 		}
 
+		constexpr void skip_short_window( ) {
+			auto it = m_iter;
+			auto const last = ra_end( );
+			for( difference_type n = 0; n < m_slide_size; ++n ) {
+				if( it == last ) {
+					m_iter = last;
+					return;
+				}
+				++it;
+			}
+		}
+
 		constexpr void increment( ) {
 			auto it = daw::safe_next( m_iter, ra_end( ), m_slide_size );
 			if( it == ra_end( ) ) {
@@ -59,12 +71,16 @@ namespace daw::pipelines::pimpl {
 		requires( not std::same_as<std::remove_cvref_t<U>, slide_view> ) //
 		  explicit slide_view( U &&r )
 		  : m_range{ DAW_FWD( r ) }
-		  , m_iter{ std::begin( m_range ) } {}
+		  , m_iter{ std::begin( m_range ) } {
+			skip_short_window( );
+		}
 
 		explicit constexpr slide_view( Range auto &&r, std::size_t slide_size )
 		  : m_range{ DAW_FWD( r ) }
 		  , m_iter{ std::begin( m_range ) }
-		  , m_slide_size{ static_cast<difference_type>( slide_size ) } {}
+		  , m_slide_size{ static_cast<difference_type>( slide_size ) } {
+			skip_short_window( );
+		}
 
 		[[nodiscard]] constexpr iterator &base( ) {
 			return m_iter;
-- 
2.43.0


From b0c5f5bd30b4625b05b33747027656d2e5039fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:24 +0000
Subject: [PATCH 167/248] fix: step over the whole of a delimiter that is a
 range

---
 include/daw/pipelines/split.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/pipelines/split.h b/include/daw/pipelines/split.h
index 2a2fb56..8e355da 100644
--- a/include/daw/pipelines/split.h
+++ b/include/daw/pipelines/split.h
@@ -34,8 +34,8 @@ namespace daw::pipelines {
 		struct delimiter_length_t<Delimiter> {
 			std::ptrdiff_t length;
 
-			constexpr std::ptrdiff_t size( ) {
-				return 1;
+			constexpr std::ptrdiff_t size( ) const {
+				return length;
 			}
 
 			constexpr delimiter_length_t( Delimiter const &d )
-- 
2.43.0


From 2901c135bb24e845f7054329b2846bad7c46afa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:24 +0000
Subject: [PATCH 168/248] fix: index iota iterators

---
 include/daw/pipelines/iota.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/daw/pipelines/iota.h b/include/daw/pipelines/iota.h
index 6183f0f..06574a9 100644
--- a/include/daw/pipelines/iota.h
+++ b/include/daw/pipelines/iota.h
@@ -86,14 +86,14 @@ namespace daw::pipelines {
 		[[nodiscard]] constexpr iota_iterator
 		operator+( difference_type n ) const noexcept {
 			iota_iterator result = *this;
-			result.value += n;
+			result += n;
 			return result;
 		}
 
 		[[nodiscard]] constexpr iota_iterator
 		operator-( difference_type n ) const noexcept {
 			iota_iterator result = *this;
-			result.value -= n;
+			result -= n;
 			return result;
 		}
 
@@ -103,12 +103,12 @@ namespace daw::pipelines {
 		}
 
 		[[nodiscard]] constexpr reference operator[]( size_type n ) noexcept {
-			return *( value + static_cast<difference_type>( n ) );
+			return *( *this + static_cast<difference_type>( n ) );
 		}
 
 		[[nodiscard]] constexpr const_reference
 		operator[]( size_type n ) const noexcept {
-			return *( value + static_cast<difference_type>( n ) );
+			return *( *this + static_cast<difference_type>( n ) );
 		}
 
 		[[nodiscard]] friend constexpr bool operator==( iota_iterator const &lhs,
-- 
2.43.0


From 3eb8d3bf81fd1baefc014c51fadfe59689bf129c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:24 +0000
Subject: [PATCH 169/248] fix: Unique accepts lvalue ranges

---
 include/daw/pipelines/unique.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/pipelines/unique.h b/include/daw/pipelines/unique.h
index 7483a04..81391bb 100644
--- a/include/daw/pipelines/unique.h
+++ b/include/daw/pipelines/unique.h
@@ -98,7 +98,7 @@ namespace daw::pipelines {
 		}
 	};
 	template<typename I>
-	unique_view( I ) -> unique_view<I>;
+	unique_view( I, I ) -> unique_view<I>;
 
 	template<Range R>
 	struct unique_range {
@@ -150,7 +150,7 @@ namespace daw::pipelines {
 				if constexpr( std::is_rvalue_reference_v<decltype( r )> ) {
 					return unique_range{ DAW_FWD( r ) };
 				} else {
-					return unique_view{ DAW_FWD( r ) };
+					return unique_view{ std::begin( r ), std::end( r ) };
 				}
 			}
 		};
-- 
2.43.0


From d5b79acc880bad144eecf965b32263c855c9164b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:24 +0000
Subject: [PATCH 170/248] fix: Sort, Min, Max and MinMax accept a comparison
 and a projection

---
 include/daw/pipelines/algorithm.h | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/daw/pipelines/algorithm.h b/include/daw/pipelines/algorithm.h
index 73a1e87..525d6b1 100644
--- a/include/daw/pipelines/algorithm.h
+++ b/include/daw/pipelines/algorithm.h
@@ -32,7 +32,8 @@ namespace daw::pipelines {
 
 			[[nodiscard]] DAW_CPP23_STATIC_CALL_OP constexpr auto
 			operator( )( auto &&compare ) DAW_CPP23_STATIC_CALL_OP_CONST {
-				return Sort_t{ DAW_FWD( compare ) };
+				return Sort_t<daw::remove_cvref_t<decltype( compare )>>{
+				  DAW_FWD( compare ) };
 			}
 
 			[[nodiscard]] constexpr decltype( auto )
@@ -65,9 +66,10 @@ namespace daw::pipelines {
 			requires( not Range<C> ) //
 			  [[nodiscard]] DAW_CPP23_STATIC_CALL_OP
 			  constexpr auto operator( )( C &&compare,
-			                              P &&projection = Projection{ } )
+			                              P &&projection = P{ } )
 			    DAW_CPP23_STATIC_CALL_OP_CONST {
-				return Max_t{ DAW_FWD( compare ), DAW_FWD( projection ) };
+				return Max_t<daw::remove_cvref_t<C>, daw::remove_cvref_t<P>>{
+				  DAW_FWD( compare ), DAW_FWD( projection ) };
 			}
 
 			[[nodiscard]] constexpr auto operator( )( Range auto &&r ) const {
@@ -99,9 +101,10 @@ namespace daw::pipelines {
 			requires( not Range<C> ) //
 			  [[nodiscard]] DAW_CPP23_STATIC_CALL_OP
 			  constexpr auto operator( )( C &&compare,
-			                              P &&projection = Projection{ } )
+			                              P &&projection = P{ } )
 			    DAW_CPP23_STATIC_CALL_OP_CONST {
-				return Min_t{ DAW_FWD( compare ), DAW_FWD( projection ) };
+				return Min_t<daw::remove_cvref_t<C>, daw::remove_cvref_t<P>>{
+				  DAW_FWD( compare ), DAW_FWD( projection ) };
 			}
 
 			[[nodiscard]] constexpr auto operator( )( Range auto &&r ) const {
@@ -133,9 +136,10 @@ namespace daw::pipelines {
 			requires( not Range<C> ) //
 			  [[nodiscard]] DAW_CPP23_STATIC_CALL_OP
 			  constexpr auto operator( )( C &&compare,
-			                              P &&projection = Projection{ } )
+			                              P &&projection = P{ } )
 			    DAW_CPP23_STATIC_CALL_OP_CONST {
-				return MinMax_t{ DAW_FWD( compare ), DAW_FWD( projection ) };
+				return MinMax_t<daw::remove_cvref_t<C>, daw::remove_cvref_t<P>>{
+				  DAW_FWD( compare ), DAW_FWD( projection ) };
 			}
 
 			[[nodiscard]] constexpr auto operator( )( Range auto &&r ) const {
-- 
2.43.0


From 4f5d62acf2fb9eebd323d9d0e764a72f7919239e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:24 +0000
Subject: [PATCH 171/248] fix: concatenate empty ranges and lvalue ranges

---
 include/daw/pipelines/concat.h | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/include/daw/pipelines/concat.h b/include/daw/pipelines/concat.h
index 09c867e..713dcb3 100644
--- a/include/daw/pipelines/concat.h
+++ b/include/daw/pipelines/concat.h
@@ -47,11 +47,21 @@ namespace daw::pipelines {
 		template<std::size_t... Is>
 		static constexpr std::array<range_variant_t, sizeof...( Ranges )>
 		get_iter_pair( std::index_sequence<Is...>,
-		               std::tuple<Ranges...> &&ranges ) {
+		               std::tuple<std::remove_reference_t<Ranges> &...> ranges ) {
 			return std::array{
 			  range_variant_t( std::in_place_index_t<Is>{ },
-			                   std::begin( std::get<Is>( std::move( ranges ) ) ),
-			                   std::end( std::get<Is>( std::move( ranges ) ) ) )... };
+			                   std::begin( std::get<Is>( ranges ) ),
+			                   std::end( std::get<Is>( ranges ) ) )... };
+		}
+
+		// Move on to the next range that has elements left, if there is one
+		constexpr void skip_empty( ) {
+			while( m_index + 1 < m_ranges.size( ) and
+			       daw::visit_nt( m_ranges[m_index], []( auto const &p ) {
+				       return p.first == p.second;
+			       } ) ) {
+				++m_index;
+			}
 		}
 
 	public:
@@ -60,7 +70,9 @@ namespace daw::pipelines {
 		explicit constexpr concat_view( Ranges... ranges )
 		  : m_ranges(
 		      get_iter_pair( std::make_index_sequence<sizeof...( Ranges )>{ },
-		                     std::tuple{ std::move( ranges )... } ) ) {}
+		                     std::forward_as_tuple( ranges... ) ) ) {
+			skip_empty( );
+		}
 
 		concat_view begin( ) const {
 			return *this;
@@ -80,10 +92,8 @@ namespace daw::pipelines {
 		constexpr concat_view &operator++( ) {
 			daw::visit_nt( m_ranges[m_index], [&]( auto &p ) {
 				++p.first;
-				if( p.first == p.second ) {
-					++m_index;
-				}
 			} );
+			skip_empty( );
 			return *this;
 		}
 
-- 
2.43.0


From 589d061fa06ee51b424406a49d6b35bc21a77323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:24 +0000
Subject: [PATCH 172/248] fix: project the summed values

---
 include/daw/pipelines/numeric.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/pipelines/numeric.h b/include/daw/pipelines/numeric.h
index 248fa92..b92e0ba 100644
--- a/include/daw/pipelines/numeric.h
+++ b/include/daw/pipelines/numeric.h
@@ -94,7 +94,7 @@ namespace daw::pipelines {
 						if constexpr( std::is_same_v<Projection, IdentityFn_t> ) {
 							return cur_v;
 						} else {
-							return std::invoke( cur_v, m_projection );
+							return std::invoke( m_projection, cur_v );
 						}
 					}( );
 					auto t = sum + input;
-- 
2.43.0


From 401bff0e373d3762d88ce13bc1e822d07ab9e804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:24 +0000
Subject: [PATCH 173/248] fix: the distance between two pipeline ranges is
 positive when the first is further along

---
 include/daw/pipelines/range.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/pipelines/range.h b/include/daw/pipelines/range.h
index 7f7e20d..dddaa55 100644
--- a/include/daw/pipelines/range.h
+++ b/include/daw/pipelines/range.h
@@ -152,7 +152,7 @@ namespace daw::pipelines {
 
 		constexpr difference_type operator-( range_t const &rhs ) const
 		  requires( RandomIteratorTag<iterator_category> ) {
-			return std::distance( first, rhs.first );
+			return std::distance( rhs.first, first );
 		}
 
 		constexpr bool operator==( range_t const &rhs ) const = default;
-- 
2.43.0


From a03374158eec23570cdc997b18ea1cbbb1fb1edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:24 +0000
Subject: [PATCH 174/248] fix: ForEachIndexed compares its index and size as
 the same type

---
 include/daw/pipelines/foreach.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/pipelines/foreach.h b/include/daw/pipelines/foreach.h
index f119982..8b49d87 100644
--- a/include/daw/pipelines/foreach.h
+++ b/include/daw/pipelines/foreach.h
@@ -64,7 +64,8 @@ namespace daw::pipelines {
 	[[nodiscard]] constexpr auto ForEachIndexed( auto &&fn ) {
 		// Maybe used owned range
 		return [=]( RandomRange auto &&r ) {
-			auto const sz = std::distance( std::begin( r ), std::end( r ) );
+			auto const sz = static_cast<std::size_t>(
+			  std::distance( std::begin( r ), std::end( r ) ) );
 			for( std::size_t n = 0; n < sz; ++n ) {
 				(void)std::invoke( fn, r[n] );
 			}
-- 
2.43.0


From e0e5bc8a2d29903ced236aa46e8fa61a2772b9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:24 +0000
Subject: [PATCH 175/248] fix: Flatten accepts lvalue ranges

---
 include/daw/pipelines/flatten.h | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/daw/pipelines/flatten.h b/include/daw/pipelines/flatten.h
index d1e92f5..1a53916 100644
--- a/include/daw/pipelines/flatten.h
+++ b/include/daw/pipelines/flatten.h
@@ -19,7 +19,9 @@
 
 #include <cassert>
 #include <cstddef>
+#include <functional>
 #include <iterator>
+#include <type_traits>
 
 namespace daw::pipelines::pimpl {
 	template<ForwardRange R>
@@ -49,25 +51,32 @@ namespace daw::pipelines::pimpl {
 	private:
 		using end_t = flatten_view_end_t<R>;
 
-		using m_range_t = daw::remove_cvrvref_t<R>;
+		using m_range_t =
+		  std::conditional_t<std::is_lvalue_reference_v<R>,
+		                     std::reference_wrapper<std::remove_reference_t<R>>,
+		                     daw::remove_cvrvref_t<R>>;
 		mutable m_range_t m_range;
+
+		[[nodiscard]] constexpr daw::remove_cvrvref_t<R> &range( ) const {
+			return m_range;
+		}
 		iterator_t m_range_first{ };
 		sub_iterator_t m_cur_first{ };
 
 		[[nodiscard]] constexpr auto rabegin( ) {
-			return std::begin( m_range );
+			return std::begin( range( ) );
 		}
 
 		[[nodiscard]] constexpr auto rabegin( ) const {
-			return std::begin( m_range );
+			return std::begin( range( ) );
 		}
 
 		[[nodiscard]] constexpr auto raend( ) {
-			return std::end( m_range );
+			return std::end( range( ) );
 		}
 
 		[[nodiscard]] constexpr auto raend( ) const {
-			return std::end( m_range );
+			return std::end( range( ) );
 		}
 
 		// Position at the first element, in order, of a non-empty inner range
-- 
2.43.0


From 53607b31ad01dd56ce36006966dba796d4a0f1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:24 +0000
Subject: [PATCH 176/248] fix: Split accepts lvalue delimiters and projections

---
 include/daw/pipelines/split.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/pipelines/split.h b/include/daw/pipelines/split.h
index 8e355da..1a49ac2 100644
--- a/include/daw/pipelines/split.h
+++ b/include/daw/pipelines/split.h
@@ -230,8 +230,8 @@ namespace daw::pipelines {
 	template<typename Delimiter, typename Projection = std::identity>
 	[[nodiscard]] DAW_ATTRIB_INLINE constexpr auto
 	Split( Delimiter &&d, Projection &&p = Projection{ } ) {
-		return pimpl::split_t<daw::remove_rvalue_ref_t<Delimiter>,
-		                      daw::remove_rvalue_ref_t<Projection>>{ DAW_FWD( d ),
-		                                                             DAW_FWD( p ) };
+		return pimpl::split_t<daw::remove_cvref_t<Delimiter>,
+		                      daw::remove_cvref_t<Projection>>{ DAW_FWD( d ),
+		                                                        DAW_FWD( p ) };
 	}
 } // namespace daw::pipelines
-- 
2.43.0


From 271d3ec11695011395235304bbc61d1dc0821082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:24 +0000
Subject: [PATCH 177/248] fix: pipeline ranges compare by their ends

---
 include/daw/pipelines/range.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/daw/pipelines/range.h b/include/daw/pipelines/range.h
index dddaa55..9a7f9b6 100644
--- a/include/daw/pipelines/range.h
+++ b/include/daw/pipelines/range.h
@@ -12,6 +12,7 @@
 #include "daw/daw_move.h"
 #include "daw/pipelines/range_base.h"
 
+#include <compare>
 #include <cstddef>
 #include <daw/stdinc/tuple_traits.h>
 #include <iterator>
@@ -155,10 +156,20 @@ namespace daw::pipelines {
 			return std::distance( rhs.first, first );
 		}
 
-		constexpr bool operator==( range_t const &rhs ) const = default;
+		constexpr bool operator==( range_t const &rhs ) const {
+			return first == rhs.first and last == rhs.last;
+		}
 		constexpr bool operator!=( range_t const &rhs ) const = default;
 		// clang-format off
-		constexpr auto operator<=>( range_t const &rhs ) const = default;
+		constexpr auto operator<=>( range_t const &rhs ) const
+		  requires( std::three_way_comparable<First> and
+		            std::three_way_comparable<Last> ) {
+			using result_t =
+			  std::common_comparison_category_t<decltype( first <=> rhs.first ),
+			                                    decltype( last <=> rhs.last )>;
+			result_t const result = first <=> rhs.first;
+			return result != 0 ? result : result_t( last <=> rhs.last );
+		}
 		// clang-format on
 	};
 	template<typename I, typename L>
-- 
2.43.0


From fcb2ff614cdad8e3babba00aec6697fb26709d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:24 +0000
Subject: [PATCH 178/248] fix: contiguous views can be moved, so that pipelines
 over arrays compile

---
 include/daw/daw_contiguous_view.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/daw/daw_contiguous_view.h b/include/daw/daw_contiguous_view.h
index ffaa2d1..8e2afa2 100644
--- a/include/daw/daw_contiguous_view.h
+++ b/include/daw/daw_contiguous_view.h
@@ -53,6 +53,11 @@ namespace daw {
 		  : m_first( other.m_first )
 		  , m_last( other.m_last ) {}
 
+		constexpr contiguous_view( contiguous_view && ) noexcept = default;
+
+		constexpr contiguous_view &
+		operator=( contiguous_view && ) noexcept = default;
+
 		constexpr contiguous_view &operator=( contiguous_view &rhs ) noexcept {
 			m_first = rhs.m_first;
 			m_last = rhs.m_last;
-- 
2.43.0


From ae4e8d402697a9aad84d492e1288be858a83fa2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:24 +0000
Subject: [PATCH 179/248] fix: daw_poly_value.h includes the attribute macros
 it uses

---
 include/daw/daw_poly_value.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/daw/daw_poly_value.h b/include/daw/daw_poly_value.h
index dc472a5..b54d296 100644
--- a/include/daw/daw_poly_value.h
+++ b/include/daw/daw_poly_value.h
@@ -12,6 +12,8 @@
 #include "daw_enable_if.h"
 #include "daw_traits.h"
 
+#include "daw/daw_attributes.h"
+
 #include <functional>
 #include <memory>
 #include <utility>
-- 
2.43.0


From 17a179c7f40ae52acf15526f32abf7695603e344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:24 +0000
Subject: [PATCH 180/248] fix: dereferencing a poly_var gives the stored
 object, not a sliced copy

---
 include/daw/daw_poly_var.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_poly_var.h b/include/daw/daw_poly_var.h
index aa909d5..d4b90f5 100644
--- a/include/daw/daw_poly_var.h
+++ b/include/daw/daw_poly_var.h
@@ -37,13 +37,13 @@ namespace daw {
 		}
 
 		[[nodiscard]] constexpr Base const &operator*( ) const {
-			return daw::visit_nt( m_value, []( auto const &value ) {
+			return daw::visit_nt( m_value, []( auto const &value ) -> Base const & {
 				return *static_cast<Base const *>( &value );
 			} );
 		}
 
 		[[nodiscard]] constexpr Base &operator*( ) {
-			return daw::visit_nt( m_value, []( auto &value ) {
+			return daw::visit_nt( m_value, []( auto &value ) -> Base & {
 				return *static_cast<Base *>( &value );
 			} );
 		}
-- 
2.43.0


From 8584c65a7b05b182fd38fc21fef1d353832e3221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:24 +0000
Subject: [PATCH 181/248] fix: visiting a variant that lost its value throws
 bad_variant_access

---
 include/daw/daw_visit.h | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/include/daw/daw_visit.h b/include/daw/daw_visit.h
index 93b3aca..0dc4ccc 100644
--- a/include/daw/daw_visit.h
+++ b/include/daw/daw_visit.h
@@ -86,15 +86,18 @@ namespace daw {
 		}
 
 	  DAW_MAKE_REQ_TRAIT( has_variant_npos, T::variant_npos );
-	  
-    template<typename Variant, std::enable_if_t<has_variant_npos<Variant>, std::nullptr_t> = nullptr> 
-	  DAW_ATTRIB_FLATINLINE constexpr bool is_empty( Variant const & v ) {
-		  return v.index( ) == Variant::variant_npos;
-		}
+	  DAW_MAKE_REQ_TRAIT( has_valueless_by_exception,
+	                      std::declval<T const &>( ).valueless_by_exception( ) );
 
-    template<typename Variant, std::enable_if_t<not has_variant_npos<Variant>, std::nullptr_t> = nullptr> 
-	  DAW_ATTRIB_INLINE constexpr bool is_empty( Variant const & ) {
-      return false;
+		template<typename Variant>
+		DAW_ATTRIB_INLINE constexpr bool is_empty( Variant const &v ) {
+			if constexpr( has_variant_npos<Variant> ) {
+				return v.index( ) == Variant::variant_npos;
+			} else if constexpr( has_valueless_by_exception<Variant> ) {
+				return v.valueless_by_exception( );
+			} else {
+				return false;
+			}
 		}
 	  
 		template<typename>
@@ -401,7 +404,7 @@ namespace daw {
 	[[nodiscard]] constexpr Result visit( Variant &&var,
 	                                      Visitors &&...visitors ) {
 
-		if( DAW_UNLIKELY( var.index( ) < 0 ) ) {
+		if( DAW_UNLIKELY( visit_details::is_empty( var ) ) ) {
 			visit_details::visit_error( );
 		}
 		return daw::visit_details::visit_nt<0, Result>(
-- 
2.43.0


From 5b8711326c4cdde46ffd3f30a7bc16b6eac2672e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:24 +0000
Subject: [PATCH 182/248] fix: apply accepts lvalue tuples

---
 include/daw/daw_apply.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_apply.h b/include/daw/daw_apply.h
index 7da9cf6..4bf510a 100644
--- a/include/daw/daw_apply.h
+++ b/include/daw/daw_apply.h
@@ -145,11 +145,11 @@ namespace daw {
 	template<bool use_invoke = true, typename F, typename Tuple>
 	[[nodiscard, maybe_unused]] inline constexpr decltype( auto )
 	apply( F &&f, Tuple &&t ) {
-		static_assert( is_tuple_v<Tuple>,
+		static_assert( is_tuple_v<std::remove_cv_t<std::remove_reference_t<Tuple>>>,
 		               "Attempt to call apply with invalid arguments.  The "
 		               "arguments must be a std::tuple" );
 		if constexpr( use_invoke ) {
-			if constexpr( std::tuple_size_v<Tuple> == 0 ) {
+			if constexpr( std::tuple_size_v<std::decay_t<Tuple>> == 0 ) {
 				return daw::invoke( DAW_FWD( f ) );
 			} else {
 				return cpp_17_details::apply_details(
@@ -157,7 +157,7 @@ namespace daw {
 				  std::make_index_sequence<std::tuple_size_v<std::decay_t<Tuple>>>{ } );
 			}
 		} else {
-			constexpr std::size_t tp_size = std::tuple_size_v<Tuple>;
+			constexpr std::size_t tp_size = std::tuple_size_v<std::decay_t<Tuple>>;
 			if constexpr( tp_size == 0 ) {
 				return DAW_FWD( f )( );
 			} else {
-- 
2.43.0


From 933fee6efb6b43e54789c432ae39dbf8e3c5066f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:24 +0000
Subject: [PATCH 183/248] fix: apply_at accepts temporary tuples

---
 include/daw/daw_tuple_helper.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_tuple_helper.h b/include/daw/daw_tuple_helper.h
index 31d8bf6..ec25ca7 100644
--- a/include/daw/daw_tuple_helper.h
+++ b/include/daw/daw_tuple_helper.h
@@ -456,7 +456,8 @@ namespace daw {
 		constexpr void apply_at( std::tuple<Args...> &&tp, size_t index,
 		                         Funcs &&...funcs ) {
 			tuple_details::apply_at_impl( std::move( tp ), index,
-			                              daw::overload( DAW_FWD( funcs )... ) );
+			                              daw::overload( DAW_FWD( funcs )... ),
+			                              std::index_sequence_for<Args...>{ } );
 		}
 
 		namespace tuple_details {
-- 
2.43.0


From 4c0f2a4d31da2bca275b38ec554acd64fb6532f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:24 +0000
Subject: [PATCH 184/248] fix: tuple2 elements of class type, elements of
 temporaries and a lone tuple2_cat argument compile

---
 include/daw/daw_tuple2.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/daw/daw_tuple2.h b/include/daw/daw_tuple2.h
index c468b70..fb29819 100644
--- a/include/daw/daw_tuple2.h
+++ b/include/daw/daw_tuple2.h
@@ -116,7 +116,7 @@ namespace daw {
 
 	template<std::size_t Index, typename Ts>
 	constexpr Ts &get( tuple2_impl::leaf<Index, Ts, true> &tp ) {
-		return static_cast<Ts const &>( tp );
+		return static_cast<Ts &>( tp );
 	}
 
 	template<std::size_t Index, typename Ts>
@@ -126,22 +126,22 @@ namespace daw {
 
 	template<std::size_t Index, typename Ts>
 	constexpr Ts const &&get( tuple2_impl::leaf<Index, Ts, true> const &&tp ) {
-		return static_cast<Ts const &>( tp );
+		return static_cast<Ts const &&>( tp );
 	}
 
 	template<std::size_t Index, typename Ts>
 	constexpr Ts const &&get( tuple2_impl::leaf<Index, Ts, false> const &&tp ) {
-		return tp.value;
+		return static_cast<Ts const &&>( tp.value );
 	}
 
 	template<std::size_t Index, typename Ts>
 	constexpr Ts &&get( tuple2_impl::leaf<Index, Ts, true> &&tp ) {
-		return static_cast<Ts const &>( tp );
+		return static_cast<Ts &&>( tp );
 	}
 
 	template<std::size_t Index, typename Ts>
 	constexpr Ts &&get( tuple2_impl::leaf<Index, Ts, false> &&tp ) {
-		return tp.value;
+		return static_cast<Ts &&>( tp.value );
 	}
 
 	template<std::size_t, typename>
@@ -210,8 +210,8 @@ namespace daw {
 	}
 
 	template<typename Tuple>
-	constexpr tuple2<> tuple2_cat( Tuple &&tp ) {
-		return { tp };
+	constexpr daw::remove_cvref_t<Tuple> tuple2_cat( Tuple &&tp ) {
+		return DAW_FWD( tp );
 	}
 
 	template<typename T0, typename T1, typename... Tps>
-- 
2.43.0


From 4b2b66454bd6ec5306219f4d397ecb4e913a0a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:24 +0000
Subject: [PATCH 185/248] fix: union_pair constructs the alternative it stores
 instead of assigning to storage that holds no object

---
 include/daw/daw_union_pair.h | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/daw/daw_union_pair.h b/include/daw/daw_union_pair.h
index bab5c85..9f17e30 100644
--- a/include/daw/daw_union_pair.h
+++ b/include/daw/daw_union_pair.h
@@ -17,6 +17,7 @@
 #include <cstddef>
 #include <cstdint>
 #include <cstdlib>
+#include <memory>
 #include <utility>
 
 namespace daw {
@@ -81,12 +82,13 @@ namespace daw {
 			static_assert( std::is_convertible_v<T, Type0>,
 			               "Incompatible type T cannot convert to Type0" );
 
-			if( type != data_types::type_0 ) {
+			if( type == data_types::type_0 ) {
+				value0 = DAW_FWD( value );
+			} else {
 				clear( );
+				std::construct_at( std::addressof( value0 ), DAW_FWD( value ) );
+				type = data_types::type_0;
 			}
-			type = data_types::type_nothing;
-			value0 = DAW_FWD( value );
-			type = data_types::type_0;
 		}
 
 		template<typename T>
@@ -94,12 +96,13 @@ namespace daw {
 			static_assert( std::is_convertible_v<T, Type1>,
 			               "Incompatible type T cannot convert to Type1" );
 
-			if( type != data_types::type_1 ) {
+			if( type == data_types::type_1 ) {
+				value1 = DAW_FWD( value );
+			} else {
 				clear( );
+				std::construct_at( std::addressof( value1 ), DAW_FWD( value ) );
+				type = data_types::type_1;
 			}
-			type = data_types::type_nothing;
-			value1 = DAW_FWD( value );
-			type = data_types::type_1;
 		}
 
 	public:
-- 
2.43.0


From f7fd927453e04188816fb0e8726f2da955bf64b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:24 +0000
Subject: [PATCH 186/248] fix: scope guard and unique_resource include
 <cassert>

---
 include/daw/daw_scope_guard.h     | 1 +
 include/daw/daw_unique_resource.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/daw/daw_scope_guard.h b/include/daw/daw_scope_guard.h
index 1f69219..4360256 100644
--- a/include/daw/daw_scope_guard.h
+++ b/include/daw/daw_scope_guard.h
@@ -13,6 +13,7 @@
 #include "daw_cpp_feature_check.h"
 #include "daw_is_constant_evaluated.h"
 
+#include <cassert>
 #include <cstddef>
 #include <daw/stdinc/move_fwd_exch.h>
 #include <exception>
diff --git a/include/daw/daw_unique_resource.h b/include/daw/daw_unique_resource.h
index 8ff60a0..6819e95 100644
--- a/include/daw/daw_unique_resource.h
+++ b/include/daw/daw_unique_resource.h
@@ -11,6 +11,7 @@
 #include "daw_exchange.h"
 #include "daw_move.h"
 
+#include <cassert>
 #include <optional>
 #include <type_traits>
 
-- 
2.43.0


From 2942303c35ca09bc57ac84e0dd2f92a87b581d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:24 +0000
Subject: [PATCH 187/248] fix: a scope guard that was moved from does not run
 its handler again

---
 include/daw/daw_scope_guard.h | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_scope_guard.h b/include/daw/daw_scope_guard.h
index 4360256..d824565 100644
--- a/include/daw/daw_scope_guard.h
+++ b/include/daw/daw_scope_guard.h
@@ -41,8 +41,21 @@ namespace daw {
 	public:
 		ScopeGuard( const ScopeGuard & ) = delete;
 		ScopeGuard &operator=( const ScopeGuard & ) = delete;
-		ScopeGuard( ScopeGuard && ) = default;
-		ScopeGuard &operator=( ScopeGuard && ) = default;
+		DAW_ATTRIB_INLINE constexpr ScopeGuard( ScopeGuard &&other ) noexcept(
+		  std::is_nothrow_move_constructible_v<FunctionType> )
+		  : m_function{ std::move( other.m_function ) } {
+			other.m_function.reset( );
+		}
+
+		DAW_ATTRIB_INLINE constexpr ScopeGuard &
+		operator=( ScopeGuard &&rhs ) noexcept(
+		  std::is_nothrow_move_assignable_v<std::optional<FunctionType>> ) {
+			if( this != &rhs ) {
+				m_function = std::move( rhs.m_function );
+				rhs.m_function.reset( );
+			}
+			return *this;
+		}
 
 		DAW_ATTRIB_INLINE explicit constexpr ScopeGuard(
 		  FunctionType
-- 
2.43.0


From d8e5b631680d2a9efd8495771c2d99a8d77485ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:24 +0000
Subject: [PATCH 188/248] fix: ScopeGuard::dismiss compiles

---
 include/daw/daw_scope_guard.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_scope_guard.h b/include/daw/daw_scope_guard.h
index d824565..71968ce 100644
--- a/include/daw/daw_scope_guard.h
+++ b/include/daw/daw_scope_guard.h
@@ -87,7 +87,7 @@ namespace daw {
 			}
 		}
 
-		DAW_ATTRIB_INLINE constexpr void dismiss( ) const noexcept {
+		DAW_ATTRIB_INLINE constexpr void dismiss( ) noexcept {
 			m_function = std::optional<FunctionType>( );
 		}
 
-- 
2.43.0


From 047f8cc50e8a89d6ecb5cf81f7314b8ae6bc763a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:24 +0000
Subject: [PATCH 189/248] fix: unique_resource::reset empties the owner, the
 deleter is not run a second time

---
 include/daw/daw_unique_resource.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/daw/daw_unique_resource.h b/include/daw/daw_unique_resource.h
index 6819e95..0a9ff6b 100644
--- a/include/daw/daw_unique_resource.h
+++ b/include/daw/daw_unique_resource.h
@@ -53,6 +53,7 @@ namespace daw {
 		constexpr void reset( ) noexcept( std::is_nothrow_destructible_v<T> ) {
 			if( value ) {
 				Deleter{ }( *value );
+				value = std::nullopt;
 			}
 		}
 
-- 
2.43.0


From 0c6693084b38c9ac38a0263b241f43865272e272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:24 +0000
Subject: [PATCH 190/248] fix: unique_resource move assignment handles an empty
 source and itself

---
 include/daw/daw_unique_resource.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_unique_resource.h b/include/daw/daw_unique_resource.h
index 0a9ff6b..c6d40b0 100644
--- a/include/daw/daw_unique_resource.h
+++ b/include/daw/daw_unique_resource.h
@@ -28,7 +28,10 @@ namespace daw {
 
 		unique_resource &operator=( unique_resource &&rhs ) noexcept(
 		  std::is_nothrow_move_assignable_v<T> ) {
-			reset( rhs.release( ) );
+			if( this != &rhs ) {
+				reset( );
+				value = daw::exchange( rhs.value, std::nullopt );
+			}
 			return *this;
 		}
 
-- 
2.43.0


From 8bd263f10b7fdfe9ccf8203370240899f7011816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:32 +0000
Subject: [PATCH 191/248] fix: assigning a counted resource returns a value and
 leaves the count alone

---
 include/daw/daw_countable_resource.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_countable_resource.h b/include/daw/daw_countable_resource.h
index cb346ae..ad36b0a 100644
--- a/include/daw/daw_countable_resource.h
+++ b/include/daw/daw_countable_resource.h
@@ -27,7 +27,7 @@ namespace daw {
 		}
 
 		countable_resource_t &operator=( countable_resource_t const & ) noexcept {
-			++m_resource_count;
+			return *this;
 		}
 
 		~countable_resource_t( ) {
-- 
2.43.0


From a3d613c2c33830ef239f0fcbb5f5df3ca0c3424a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:32 +0000
Subject: [PATCH 192/248] fix: atomic_wait_if reads the value it decides on
 with the requested memory order

---
 include/daw/daw_atomic_wait.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_atomic_wait.h b/include/daw/daw_atomic_wait.h
index ef6387e..a6a077a 100644
--- a/include/daw/daw_atomic_wait.h
+++ b/include/daw/daw_atomic_wait.h
@@ -176,7 +176,7 @@ namespace daw {
 		auto const &const_current = current;
 		while( not predicate( const_current ) ) {
 			std::atomic_wait_explicit( object, current, order );
-			current = std::atomic_load_explicit( object, std::memory_order_relaxed );
+			current = std::atomic_load_explicit( object, order );
 		}
 	}
 
-- 
2.43.0


From a3fcd3441e553dde9f6d5ffc3d968c886f7951cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:18 +0000
Subject: [PATCH 193/248] fix: bitcount counts the bits that are set

---
 include/daw/daw_utility.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_utility.h b/include/daw/daw_utility.h
index 4f1992f..c2ed34d 100644
--- a/include/daw/daw_utility.h
+++ b/include/daw/daw_utility.h
@@ -408,9 +408,8 @@ namespace daw {
 	template<typename Value>
 	[[nodiscard]] constexpr std::size_t bitcount( Value value ) noexcept {
 		size_t result = 0;
-		while( value ) {
-			result += static_cast<size_t>( value & ~static_cast<Value>( 0b1 ) );
-			value >>= 1;
+		for( std::size_t n = 0; n < sizeof( Value ) * 8U; ++n ) {
+			result += static_cast<std::size_t>( ( value >> n ) & 1 );
 		}
 		return result;
 	}
-- 
2.43.0


From 14e093033827d53b1aedbf6894e244e1628558cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:18 +0000
Subject: [PATCH 194/248] fix: hex of a non-integral value does not skip output
 positions, and of a range reads the input

---
 include/daw/daw_utility.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/daw/daw_utility.h b/include/daw/daw_utility.h
index c2ed34d..a512239 100644
--- a/include/daw/daw_utility.h
+++ b/include/daw/daw_utility.h
@@ -522,7 +522,6 @@ namespace daw {
 		auto chr_ptr = reinterpret_cast<char const *>( &val );
 		for( std::size_t n = 0; n < sizeof( T ); ++n ) {
 			it_out = hex( *chr_ptr, it_out );
-			++it_out;
 			++chr_ptr;
 		}
 		return it_out;
@@ -568,7 +567,7 @@ namespace daw {
 	                                  ForwardIterator2 const last_in,
 	                                  OutputIterator first_out ) noexcept {
 		for( ; first_in != last_in; ++first_in ) {
-			first_out = hex( *first_out, first_out );
+			first_out = hex( *first_in, first_out );
 		}
 		return first_out;
 	}
-- 
2.43.0


From a022eca629ea28228509e549978f70e160d0ab95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:18 +0000
Subject: [PATCH 195/248] fix: find_all_where collects the positions that match

---
 include/daw/daw_utility.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_utility.h b/include/daw/daw_utility.h
index a512239..af58ffb 100644
--- a/include/daw/daw_utility.h
+++ b/include/daw/daw_utility.h
@@ -285,7 +285,11 @@ namespace daw {
 	[[nodiscard]] std::vector<Iterator1>
 	find_all_where( Iterator1 first, Iterator2 const last, Pred predicate ) {
 		std::vector<Iterator1> results{ };
-		std::copy_if( first, last, std::back_inserter( results ), predicate );
+		for( ; first != last; ++first ) {
+			if( predicate( *first ) ) {
+				results.push_back( first );
+			}
+		}
 		return results;
 	}
 
-- 
2.43.0


From 00a5824a3c484694643c8cc34c7bba49211f5edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:18 +0000
Subject: [PATCH 196/248] fix: to_array_of compiles

---
 include/daw/daw_utility.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_utility.h b/include/daw/daw_utility.h
index af58ffb..88ceb24 100644
--- a/include/daw/daw_utility.h
+++ b/include/daw/daw_utility.h
@@ -25,10 +25,12 @@
 #include "daw/daw_unused.h"
 #include "daw/impl/daw_make_trait.h"
 
+#include <array>
 #include <cmath>
 #include <cstddef>
 #include <cstdint>
 #include <cstdlib>
+#include <cstring>
 #include <functional>
 #include <initializer_list>
 #include <iterator>
@@ -790,7 +792,7 @@ namespace daw {
 	template<typename To, typename From>
 	[[nodiscard]] auto to_array_of( From &&from ) noexcept {
 		constexpr std::size_t const num_values = sizeof( From ) / sizeof( To );
-		static_assert( std::is_integral_v<std::decay<To>>,
+		static_assert( std::is_integral_v<std::decay_t<To>>,
 		               "To must be an integer like type" );
 		static_assert( sizeof( From ) == num_values * sizeof( To ),
 		               "Must have integral number of To's in From" );
@@ -800,7 +802,9 @@ namespace daw {
 
 		for( std::size_t entry = 0; entry < num_values; ++entry ) {
 			result[entry] =
-			  value_from_chars( std::next( as_chars.data( ), entry * sizeof( To ) ),
+			  value_from_chars<To>( std::next( as_chars.data( ),
+			                        static_cast<std::ptrdiff_t>(
+			                          entry * sizeof( To ) ) ),
 			                    std::integral_constant<size_t, sizeof( To )>{ } );
 		}
 		return result;
-- 
2.43.0


From ff4ad02bf3452eb3cc5921d5fe6f5bfc800ff68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:18 +0000
Subject: [PATCH 197/248] fix: copy of an lvalue is a copy

---
 include/daw/daw_utility.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_utility.h b/include/daw/daw_utility.h
index 88ceb24..a827b97 100644
--- a/include/daw/daw_utility.h
+++ b/include/daw/daw_utility.h
@@ -262,9 +262,9 @@ namespace daw {
 	}
 
 	template<typename T>
-	[[nodiscard]] constexpr T
-	copy( T &&value ) noexcept( std::is_nothrow_copy_constructible<T>::value ) {
-		return value;
+	[[nodiscard]] constexpr daw::remove_cvref_t<T> copy( T &&value ) noexcept(
+	  std::is_nothrow_copy_constructible_v<daw::remove_cvref_t<T>> ) {
+		return static_cast<daw::remove_cvref_t<T> const &>( value );
 	}
 
 	template<template<class, class> class Vector, typename T, typename A>
-- 
2.43.0


From 3643ad0abd9fc7c2d1bbd3c1c00b5d5a6787c85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:18 +0000
Subject: [PATCH 198/248] fix: value_is accepts constant values

---
 include/daw/daw_utility.h | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/daw/daw_utility.h b/include/daw/daw_utility.h
index a827b97..daea1c8 100644
--- a/include/daw/daw_utility.h
+++ b/include/daw/daw_utility.h
@@ -835,14 +835,10 @@ namespace daw {
 	namespace utility_details {
 		template<typename T>
 		class value_is_utility_details {
-			T *m_value;
+			T const *m_value;
 
 			constexpr value_is_utility_details( T const &v )
 			  : m_value( &v ) {}
-			constexpr value_is_utility_details( T &v )
-			  : m_value( &v ) {}
-			constexpr value_is_utility_details( T &&v )
-			  : m_value( &v ) {}
 
 			template<typename U>
 			friend /*TODO Apple Clang is mean today [[nodiscard]]*/
-- 
2.43.0


From b704284580c19c85ba94835afdb8c446f445f402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:18 +0000
Subject: [PATCH 199/248] fix: AsciiUpper and AsciiLower keep wide characters
 whole

---
 include/daw/daw_utility.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_utility.h b/include/daw/daw_utility.h
index daea1c8..4534e4d 100644
--- a/include/daw/daw_utility.h
+++ b/include/daw/daw_utility.h
@@ -322,7 +322,10 @@ namespace daw {
 	AsciiUpper( std::basic_string<CharType, Traits, Allocator> str ) noexcept {
 		daw::algorithm::map( str.cbegin( ), str.cend( ), str.begin( ),
 		                     []( CharType c ) noexcept {
-			                     return AsciiUpper( c );
+			                     return 'a' <= c and c <= 'z'
+			                              ? static_cast<CharType>(
+			                                  AsciiUpper( static_cast<char>( c ) ) )
+			                              : c;
 		                     } );
 		return std::move( str );
 	}
@@ -332,7 +335,10 @@ namespace daw {
 	AsciiLower( std::basic_string<CharType, Traits, Allocator> str ) noexcept {
 		daw::algorithm::map( str.cbegin( ), str.cend( ), str.begin( ),
 		                     []( CharType c ) noexcept {
-			                     return AsciiLower( c );
+			                     return 'A' <= c and c <= 'Z'
+			                              ? static_cast<CharType>(
+			                                  AsciiLower( static_cast<char>( c ) ) )
+			                              : c;
 		                     } );
 		return std::move( str );
 	}
-- 
2.43.0


From f4504c93383e8068846f9a1f4c044f88203b0d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:18 +0000
Subject: [PATCH 200/248] fix: unique_array_t::at throws past the end and not
 inside

---
 include/daw/daw_unique_array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_unique_array.h b/include/daw/daw_unique_array.h
index 0da7402..7a7ee99 100644
--- a/include/daw/daw_unique_array.h
+++ b/include/daw/daw_unique_array.h
@@ -114,13 +114,13 @@ namespace daw {
 
 		reference at( size_type pos ) {
 			daw::exception::daw_throw_on_false<std::out_of_range>(
-			  pos >= m_size, "Attempt to access value past end of range" );
+			  pos < m_size, "Attempt to access value past end of range" );
 			return m_data[pos];
 		}
 
 		const_reference at( size_type pos ) const {
 			daw::exception::daw_throw_on_false<std::out_of_range>(
-			  pos >= m_size, "Attempt to access value past end of range" );
+			  pos < m_size, "Attempt to access value past end of range" );
 			return m_data[pos];
 		}
 
-- 
2.43.0


From 00d5124468423e64d45b9d4f3c591537cc522790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:18 +0000
Subject: [PATCH 201/248] fix: filling a unique_array_t on construction
 compiles

---
 include/daw/daw_unique_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_unique_array.h b/include/daw/daw_unique_array.h
index 7a7ee99..66c3387 100644
--- a/include/daw/daw_unique_array.h
+++ b/include/daw/daw_unique_array.h
@@ -85,7 +85,7 @@ namespace daw {
 		  : m_data( create_values( sz ) )
 		  , m_size( sz ) {
 
-			std::fill_n( m_data, m_size, { args... } );
+			std::fill_n( m_data, m_size, value_type( args... ) );
 		}
 
 		~unique_array_t( ) noexcept( noexcept( delete[] m_data ) ) {
-- 
2.43.0


From 6e557ad7e1090be9e5d17b8f9c2e97e8a8a13e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:18 +0000
Subject: [PATCH 202/248] fix: a unique_array_t without elements is empty

---
 include/daw/daw_unique_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_unique_array.h b/include/daw/daw_unique_array.h
index 66c3387..293853d 100644
--- a/include/daw/daw_unique_array.h
+++ b/include/daw/daw_unique_array.h
@@ -93,7 +93,7 @@ namespace daw {
 		}
 
 		constexpr bool empty( ) const noexcept {
-			return m_data == nullptr;
+			return m_size == 0;
 		}
 
 		constexpr size_type size( ) const noexcept {
-- 
2.43.0


From 9424290628d8555c1c7274602504b8b08ca82cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:18 +0000
Subject: [PATCH 203/248] fix: a constant simple_array can be iterated and is
 deduced from lvalues

---
 include/daw/daw_simple_array.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_simple_array.h b/include/daw/daw_simple_array.h
index ca7a874..f95ba93 100644
--- a/include/daw/daw_simple_array.h
+++ b/include/daw/daw_simple_array.h
@@ -20,7 +20,7 @@ namespace daw {
 		using pointer = value_type *;
 		using const_pointer = value_type const *;
 		using iterator = pointer;
-		using const_iterator = pointer;
+		using const_iterator = const_pointer;
 		using reference = value_type &;
 		using const_reference = value_type const &;
 		using size_type = std::size_t;
@@ -86,7 +86,7 @@ namespace daw {
 		using pointer = value_type *;
 		using const_pointer = value_type const *;
 		using iterator = pointer;
-		using const_iterator = pointer;
+		using const_iterator = const_pointer;
 		using reference = value_type &;
 		using const_reference = value_type const &;
 		using size_type = std::size_t;
@@ -135,5 +135,5 @@ namespace daw {
 	};
 
 	template<typename T, typename... Ts>
-	simple_array( T &&, Ts &&... ) -> simple_array<T, sizeof...( Ts ) + 1>;
+	simple_array( T, Ts... ) -> simple_array<T, sizeof...( Ts ) + 1>;
 } // namespace daw
-- 
2.43.0


From 3af58ec3b79d43b7d2be79832b0b3725cec643cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:18 +0000
Subject: [PATCH 204/248] fix: the raw data of a constant uninitialized_storage
 compiles

---
 include/daw/daw_uninitialized_storage.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_uninitialized_storage.h b/include/daw/daw_uninitialized_storage.h
index 17363d8..383ee54 100644
--- a/include/daw/daw_uninitialized_storage.h
+++ b/include/daw/daw_uninitialized_storage.h
@@ -90,7 +90,10 @@ namespace daw {
 			ptr( )->~T( );
 		}
 
-		constexpr std::byte *raw_data( ) const noexcept {
+		constexpr std::byte *raw_data( ) noexcept {
+			return m_data;
+		}
+		constexpr std::byte const *raw_data( ) const noexcept {
 			return m_data;
 		}
 	};
-- 
2.43.0


From afae86bd0a2e121b0e51bab6c9def8fca4cc8c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:24 +0000
Subject: [PATCH 205/248] fix: clearing a fixed_array forgets the storage it
 released

---
 include/daw/deprecated/daw_fixed_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/deprecated/daw_fixed_array.h b/include/daw/deprecated/daw_fixed_array.h
index 0177587..dcedaf1 100644
--- a/include/daw/deprecated/daw_fixed_array.h
+++ b/include/daw/deprecated/daw_fixed_array.h
@@ -139,7 +139,7 @@ namespace daw {
 		}
 
 		void clear( ) {
-			delete[] m_data;
+			delete[] daw::exchange( m_data, nullptr );
 			m_size = 0;
 		}
 
-- 
2.43.0


From de5d7dcb714d4be7e057f9c3e944abb7bc31f9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:24 +0000
Subject: [PATCH 206/248] fix: moving a heap_array keeps its end and releases
 what it replaces

---
 include/daw/deprecated/daw_heap_array.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/daw/deprecated/daw_heap_array.h b/include/daw/deprecated/daw_heap_array.h
index 245669f..9ea146b 100644
--- a/include/daw/deprecated/daw_heap_array.h
+++ b/include/daw/deprecated/daw_heap_array.h
@@ -62,13 +62,17 @@ namespace daw {
 
 		constexpr heap_array( heap_array &&other ) noexcept
 		  : m_begin( daw::exchange( other.m_begin, nullptr ) )
-		  , m_end( daw::exchange( other.m_begin, nullptr ) )
+		  , m_end( daw::exchange( other.m_end, nullptr ) )
 		  , m_size( daw::exchange( other.m_size, 0ULL ) ) {}
 
 		constexpr heap_array &operator=( heap_array &&rhs ) noexcept {
-			m_begin = daw::exchange( rhs.m_begin, nullptr );
-			m_end = daw::exchange( rhs.m_end, nullptr );
-			m_size = daw::exchange( rhs.m_size, 0ULL );
+			auto tmp_begin = daw::exchange( rhs.m_begin, nullptr );
+			auto tmp_end = daw::exchange( rhs.m_end, nullptr );
+			auto tmp_size = daw::exchange( rhs.m_size, 0ULL );
+			clear( );
+			m_begin = tmp_begin;
+			m_end = tmp_end;
+			m_size = tmp_size;
 			return *this;
 		}
 
-- 
2.43.0


From 66072e50f1e0613f654bb3f8323a87c6c6ca3422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:24 +0000
Subject: [PATCH 207/248] fix: a copied heap_array has the slot its search
 needs behind the last element

---
 include/daw/deprecated/daw_heap_array.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/deprecated/daw_heap_array.h b/include/daw/deprecated/daw_heap_array.h
index 9ea146b..af01a31 100644
--- a/include/daw/deprecated/daw_heap_array.h
+++ b/include/daw/deprecated/daw_heap_array.h
@@ -77,7 +77,7 @@ namespace daw {
 		}
 
 		heap_array( heap_array const &other )
-		  : m_begin( create_value( other.m_size ) )
+		  : m_begin( create_value( other.m_size + 1 ) )
 		  , m_end( m_begin + other.m_size )
 		  , m_size( other.m_size ) {
 
@@ -85,7 +85,7 @@ namespace daw {
 		}
 
 		heap_array &operator=( heap_array const &rhs ) {
-			T *tmp = create_value( rhs.m_size );
+			T *tmp = create_value( rhs.m_size + 1 );
 			T *tmp_end = std::copy_n( rhs.m_begin, rhs.m_size, tmp );
 			std::size_t tmp_sz = rhs.m_size;
 			clear( );
@@ -103,7 +103,7 @@ namespace daw {
 		}
 
 		heap_array( T *arry, size_t Size )
-		  : m_begin( create_value( Size ) )
+		  : m_begin( create_value( Size + 1 ) )
 		  , m_end( m_begin + Size )
 		  , m_size( Size ) {
 
-- 
2.43.0


From 79e10f929613d8b04c256282e26c15464b47a22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:24 +0000
Subject: [PATCH 208/248] fix: a heap_array is true when it holds storage

---
 include/daw/deprecated/daw_heap_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/deprecated/daw_heap_array.h b/include/daw/deprecated/daw_heap_array.h
index af01a31..5f9784f 100644
--- a/include/daw/deprecated/daw_heap_array.h
+++ b/include/daw/deprecated/daw_heap_array.h
@@ -128,7 +128,7 @@ namespace daw {
 		}
 
 		explicit constexpr operator bool( ) const noexcept {
-			return nullptr == m_begin;
+			return nullptr != m_begin;
 		}
 
 		constexpr size_t size( ) const noexcept {
-- 
2.43.0


From 183be42e979bb3dcef3f4007d9bfb9de22ce7fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:24 +0000
Subject: [PATCH 209/248] fix: heap_array list assignment and reversed carray
 iteration use the right elements

---
 include/daw/deprecated/daw_carray.h     | 12 ++++++------
 include/daw/deprecated/daw_heap_array.h |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/daw/deprecated/daw_carray.h b/include/daw/deprecated/daw_carray.h
index 9c5aa09..a2826f9 100644
--- a/include/daw/deprecated/daw_carray.h
+++ b/include/daw/deprecated/daw_carray.h
@@ -151,32 +151,32 @@ namespace daw {
 
 		[[nodiscard]] constexpr auto rbegin( ) noexcept {
 			static_assert( N > 0, "Cannot call rbegin on empty array" );
-			return make_reverse_iterator( &ptr( )[N - 1] );
+			return make_reverse_iterator( end( ) );
 		}
 
 		[[nodiscard]] constexpr auto rbegin( ) const noexcept {
 			static_assert( N > 0, "Cannot call rbegin on empty array" );
-			return make_reverse_iterator( &ptr( )[N - 1] );
+			return make_reverse_iterator( end( ) );
 		}
 
 		[[nodiscard]] constexpr auto crbegin( ) const noexcept {
 			static_assert( N > 0, "Cannot call crbegin on empty array" );
-			return make_reverse_iterator( &ptr( )[N - 1] );
+			return make_reverse_iterator( end( ) );
 		}
 
 		[[nodiscard]] constexpr auto rend( ) noexcept {
 			static_assert( N > 0, "Cannot call rend on empty array" );
-			return make_reverse_iterator( ptr( ) - 1 );
+			return make_reverse_iterator( begin( ) );
 		}
 
 		[[nodiscard]] constexpr auto rend( ) const noexcept {
 			static_assert( N > 0, "Cannot call rend on empty array" );
-			return make_reverse_iterator( ptr( ) - 1 );
+			return make_reverse_iterator( begin( ) );
 		}
 
 		[[nodiscard]] constexpr auto crend( ) const noexcept {
 			static_assert( N > 0, "Cannot call crend on empty array" );
-			return make_reverse_iterator( ptr( ) - 1 );
+			return make_reverse_iterator( begin( ) );
 		}
 
 		[[nodiscard]] constexpr reference front( ) noexcept {
diff --git a/include/daw/deprecated/daw_heap_array.h b/include/daw/deprecated/daw_heap_array.h
index 5f9784f..e3dd6d9 100644
--- a/include/daw/deprecated/daw_heap_array.h
+++ b/include/daw/deprecated/daw_heap_array.h
@@ -98,7 +98,7 @@ namespace daw {
 		heap_array &operator=( std::initializer_list<value_type> const &values ) {
 			heap_array tmp( values.size( ) );
 			std::copy_n( values.begin( ), values.size( ), tmp.m_begin );
-			daw::cswap( *this, tmp );
+			swap( tmp );
 			return *this;
 		}
 
-- 
2.43.0


From ca88e9570446e77457f9d7f734b878b126729738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:24 +0000
Subject: [PATCH 210/248] fix: ordered_map reverse iterators and range
 construction compile

---
 include/daw/deprecated/daw_ordered_map.h | 26 ++++++++++++------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/daw/deprecated/daw_ordered_map.h b/include/daw/deprecated/daw_ordered_map.h
index 41071a1..b2d6717 100644
--- a/include/daw/deprecated/daw_ordered_map.h
+++ b/include/daw/deprecated/daw_ordered_map.h
@@ -126,17 +126,17 @@ namespace daw {
 			return cbeginer( m_values );
 		}
 
-		constexpr iterator rbegin( ) noexcept {
+		constexpr reverse_iterator rbegin( ) noexcept {
 			using namespace daw::ordered_map_impl;
 			return rbeginer( m_values );
 		}
 
-		constexpr const_iterator rbegin( ) const noexcept {
+		constexpr const_reverse_iterator rbegin( ) const noexcept {
 			using namespace daw::ordered_map_impl;
 			return rbeginer( m_values );
 		}
 
-		constexpr const_iterator crbegin( ) const noexcept {
+		constexpr const_reverse_iterator crbegin( ) const noexcept {
 			using namespace daw::ordered_map_impl;
 			return crbeginer( m_values );
 		}
@@ -156,17 +156,17 @@ namespace daw {
 			return cender( m_values );
 		}
 
-		constexpr iterator rend( ) noexcept {
+		constexpr reverse_iterator rend( ) noexcept {
 			using namespace daw::ordered_map_impl;
 			return render( m_values );
 		}
 
-		constexpr const_iterator rend( ) const noexcept {
+		constexpr const_reverse_iterator rend( ) const noexcept {
 			using namespace daw::ordered_map_impl;
 			return render( m_values );
 		}
 
-		constexpr const_iterator crend( ) const noexcept {
+		constexpr const_reverse_iterator crend( ) const noexcept {
 			using namespace daw::ordered_map_impl;
 			return crender( m_values );
 		}
@@ -235,11 +235,11 @@ namespace daw {
 		                       InputIterator last,
 		                       key_compare const &comp = key_compare{ },
 		                       allocator_type const &alloc = allocator_type{ } )
-		  : m_compare( comp )
-		  , m_values( alloc ) {
+		  : m_values( alloc )
+		  , m_compare( comp ) {
 
 			while( first != last ) {
-				if( auto pos = find( *first ); pos == end( ) ) {
+				if( auto pos = find( first->first ); pos == end( ) ) {
 					m_values.insert( pos, *first );
 				}
 				++first;
@@ -249,11 +249,11 @@ namespace daw {
 		template<typename InputIterator>
 		constexpr ordered_map( InputIterator first,
 		                       InputIterator last,
-		                       allocator_type const &alloc = allocator_type{ } )
+		                       allocator_type const &alloc )
 		  : m_values( alloc ) {
 
 			while( first != last ) {
-				if( auto pos = find( *first ); pos == end( ) ) {
+				if( auto pos = find( first->first ); pos == end( ) ) {
 					m_values.insert( pos, *first );
 				}
 				++first;
@@ -267,7 +267,7 @@ namespace daw {
 		  , m_compare( comp ) {
 
 			for( auto const &value : init ) {
-				if( auto pos = find( value ); pos == end( ) ) {
+				if( auto pos = find( value.first ); pos == end( ) ) {
 					m_values.insert( pos, value );
 				}
 			}
@@ -278,7 +278,7 @@ namespace daw {
 		  : m_values( alloc ) {
 
 			for( auto const &value : init ) {
-				if( auto pos = find( value ); pos == end( ) ) {
+				if( auto pos = find( value.first ); pos == end( ) ) {
 					m_values.insert( pos, value );
 				}
 			}
-- 
2.43.0


From df8fcb01526bcd8dc60000a4c3f7a7295f78c53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:24 +0000
Subject: [PATCH 211/248] fix: erasing from a bounded_hash_map keeps the other
 keys reachable

---
 include/daw/deprecated/daw_bounded_hash_map.h | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/daw/deprecated/daw_bounded_hash_map.h b/include/daw/deprecated/daw_bounded_hash_map.h
index c7adc75..de87ba4 100644
--- a/include/daw/deprecated/daw_bounded_hash_map.h
+++ b/include/daw/deprecated/daw_bounded_hash_map.h
@@ -345,6 +345,21 @@ namespace daw {
 			return { };
 		}
 
+		// Empty the slot and move later items of the same run back so that they
+		// stay reachable from the slot their hash starts at
+		constexpr void erase_at( size_type hole ) {
+			size_type const start = hole;
+			for( size_type pos = ( hole + 1 ) % capacity( ); pos != start and m_data[pos];
+			     pos = ( pos + 1 ) % capacity( ) ) {
+				size_type const home = scale_hash( Hash{ }( m_data[pos].kv.key ), capacity( ) );
+				if( ( pos + capacity( ) - home ) % capacity( ) >= ( pos + capacity( ) - hole ) % capacity( ) ) {
+					m_data[hole] = std::move( m_data[pos] );
+					hole = pos;
+				}
+			}
+			m_data[hole] = bounded_hash_map_item_t<Key, Value>( );
+		}
+
 		constexpr void insert( value_type &&item ) {
 			auto const index = find_index( item.key );
 			m_data[*index] =
@@ -534,8 +549,8 @@ namespace daw {
 
 		constexpr void erase( Key const &key ) {
 			auto idx = find_index( key );
-			if( idx ) {
-				m_data[*idx] = bounded_hash_map_item_t<Key, Value>( );
+			if( idx and m_data[*idx] ) {
+				erase_at( *idx );
 			}
 		}
 	};
-- 
2.43.0


From 3b88d24185daec0a81c02d799f8a11850b7047dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:24 +0000
Subject: [PATCH 212/248] fix: finding a key a bounded_hash_map does not hold
 gives the end

---
 include/daw/deprecated/daw_bounded_hash_map.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/deprecated/daw_bounded_hash_map.h b/include/daw/deprecated/daw_bounded_hash_map.h
index de87ba4..02d4881 100644
--- a/include/daw/deprecated/daw_bounded_hash_map.h
+++ b/include/daw/deprecated/daw_bounded_hash_map.h
@@ -531,7 +531,7 @@ namespace daw {
 
 		constexpr iterator find( Key const &key ) {
 			auto idx = find_index( key );
-			if( not idx ) {
+			if( not idx or not m_data[*idx] ) {
 				return end( );
 			}
 			return { std::data( m_data ), std::data( m_data ) + capacity( ),
@@ -540,7 +540,7 @@ namespace daw {
 
 		constexpr const_iterator find( Key const &key ) const {
 			auto idx = find_index( key );
-			if( not idx ) {
+			if( not idx or not m_data[*idx] ) {
 				return end( );
 			}
 			return { std::data( m_data ), std::data( m_data ) + capacity( ),
-- 
2.43.0


From e88185ed437e67f3c7a688414139649cec867691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:24 +0000
Subject: [PATCH 213/248] fix: inserting into a full bounded_hash_map does not
 write outside of it

---
 include/daw/deprecated/daw_bounded_hash_map.h | 32 ++++++++++++-------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/include/daw/deprecated/daw_bounded_hash_map.h b/include/daw/deprecated/daw_bounded_hash_map.h
index 02d4881..cf69d98 100644
--- a/include/daw/deprecated/daw_bounded_hash_map.h
+++ b/include/daw/deprecated/daw_bounded_hash_map.h
@@ -345,6 +345,16 @@ namespace daw {
 			return { };
 		}
 
+		// The slot holding key or the one it can be put into
+		constexpr size_type insert_index( Key const &key ) const {
+			auto const index = find_index( key );
+			if( not index ) {
+				// Full
+				std::abort( );
+			}
+			return *index;
+		}
+
 		// Empty the slot and move later items of the same run back so that they
 		// stay reachable from the slot their hash starts at
 		constexpr void erase_at( size_type hole ) {
@@ -361,8 +371,8 @@ namespace daw {
 		}
 
 		constexpr void insert( value_type &&item ) {
-			auto const index = find_index( item.key );
-			m_data[*index] =
+			auto const index = insert_index( item.key );
+			m_data[index] =
 			  daw::bounded_hash_map_item_t<Key, Value>( std::move( item ) );
 		}
 
@@ -395,14 +405,14 @@ namespace daw {
 		                           std::is_same_v<Value, daw::remove_cvref_t<V>>>,
 		           std::nullptr_t> = nullptr>
 		constexpr void insert( K &&key, V &&value ) {
-			auto const index = find_index( key );
-			m_data[*index] =
+			auto const index = insert_index( key );
+			m_data[index] =
 			  bounded_hash_map_item_t( DAW_FWD( key ), DAW_FWD( value ) );
 		}
 
 		constexpr void insert( std::pair<Key const, Value> const &item ) {
-			auto const index = find_index( item.first );
-			m_data[*index] = bounded_hash_map_item_t( item.first, item.second );
+			auto const index = insert_index( item.first );
+			m_data[index] = bounded_hash_map_item_t( item.first, item.second );
 		}
 
 		constexpr bool exists( Key const &key ) const {
@@ -415,7 +425,7 @@ namespace daw {
 		}
 
 		constexpr mapped_type &operator[]( Key const &key ) {
-			auto &item = m_data[*find_index( key )];
+			auto &item = m_data[insert_index( key )];
 			if( not item ) {
 				item.has_value = true;
 				item.kv.key = key;
@@ -425,7 +435,7 @@ namespace daw {
 		}
 
 		constexpr mapped_type &operator[]( Key &&key ) {
-			auto &item = m_data[*find_index( key )];
+			auto &item = m_data[insert_index( key )];
 			if( not item ) {
 				item.has_value = true;
 				item.kv.key = std::move( key );
@@ -435,11 +445,11 @@ namespace daw {
 		}
 
 		constexpr mapped_type const &operator[]( Key const &key ) const {
-			auto const &item = m_data[*find_index( key )];
-			if( not item ) {
+			auto const index = find_index( key );
+			if( not index or not m_data[*index] ) {
 				std::abort( );
 			}
-			return item.kv.value;
+			return m_data[*index].kv.value;
 		}
 
 		constexpr daw::optional<mapped_type const &>
-- 
2.43.0


From 307f55b23e94aa0c451cbb66ca77909661ebaa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:24 +0000
Subject: [PATCH 214/248] fix: erasing from a bounded_hash_set keeps the other
 keys reachable

---
 include/daw/deprecated/daw_bounded_hash_set.h | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/daw/deprecated/daw_bounded_hash_set.h b/include/daw/deprecated/daw_bounded_hash_set.h
index 5427c4b..fc5e4bd 100644
--- a/include/daw/deprecated/daw_bounded_hash_set.h
+++ b/include/daw/deprecated/daw_bounded_hash_set.h
@@ -329,6 +329,21 @@ namespace daw {
 			return { };
 		}
 
+		// Empty the slot and move later items of the same run back so that they
+		// stay reachable from the slot their hash starts at
+		constexpr void erase_at( size_type hole ) noexcept {
+			size_type const start = hole;
+			for( size_type pos = ( hole + 1 ) % capacity( ); pos != start and m_data[pos].has_value;
+			     pos = ( pos + 1 ) % capacity( ) ) {
+				size_type const home = scale_hash( hasher{ }( m_data[pos].key ), capacity( ) );
+				if( ( pos + capacity( ) - home ) % capacity( ) >= ( pos + capacity( ) - hole ) % capacity( ) ) {
+					m_data[hole] = std::move( m_data[pos] );
+					hole = pos;
+				}
+			}
+			m_data[hole] = node_type( );
+		}
+
 	public:
 		constexpr bounded_hash_set_t( ) noexcept(
 		  std::is_nothrow_default_constructible_v<Key> ) = default;
@@ -366,11 +381,10 @@ namespace daw {
 		constexpr std::optional<size_type> erase( Key const &key ) noexcept {
 			auto const hash = hasher{ }( key );
 			auto const index = find_index( hash, key );
-			if( !index ) {
+			if( !index or !m_data[*index].has_value ) {
 				return { };
 			}
-			// m_data[*index].key = Key{};
-			m_data[*index].has_value = false;
+			erase_at( *index );
 			return *index;
 		}
 
-- 
2.43.0


From c1c68ee5cd77d664a2662d491d5cb8bec48249ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:24 +0000
Subject: [PATCH 215/248] fix: bounded_hash_set iterators stay inside of the
 set

---
 include/daw/deprecated/daw_bounded_hash_set.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/daw/deprecated/daw_bounded_hash_set.h b/include/daw/deprecated/daw_bounded_hash_set.h
index fc5e4bd..02953b4 100644
--- a/include/daw/deprecated/daw_bounded_hash_set.h
+++ b/include/daw/deprecated/daw_bounded_hash_set.h
@@ -76,7 +76,7 @@ namespace daw {
 
 		constexpr const_bounded_hash_set_iterator &operator++( ) noexcept {
 			++m_position;
-			while( !m_position->has_value and m_position < m_last ) {
+			while( m_position < m_last and !m_position->has_value ) {
 				++m_position;
 			}
 			return *this;
@@ -90,7 +90,7 @@ namespace daw {
 
 		constexpr const_bounded_hash_set_iterator &operator--( ) noexcept {
 			--m_position;
-			while( !m_position->has_value and m_position > m_first ) {
+			while( m_position > m_first and !m_position->has_value ) {
 				--m_position;
 			}
 			return *this;
@@ -167,7 +167,7 @@ namespace daw {
 
 		constexpr bounded_hash_set_iterator &operator++( ) noexcept {
 			++m_position;
-			while( !m_position->has_value and m_position <= m_last ) {
+			while( m_position < m_last and !m_position->has_value ) {
 				++m_position;
 			}
 			return *this;
@@ -181,7 +181,7 @@ namespace daw {
 
 		constexpr bounded_hash_set_iterator &operator--( ) noexcept {
 			--m_position;
-			while( !m_position->has_value and m_position >= m_first ) {
+			while( m_position > m_first and !m_position->has_value ) {
 				--m_position;
 			}
 			return *this;
-- 
2.43.0


From aa6314231f6d5e0631ae02dc6155a3f6592678b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:24 +0000
Subject: [PATCH 216/248] fix: bounded_hash_set size and finding in a constant
 set compile, and finding a missing key gives the end

---
 include/daw/deprecated/daw_bounded_hash_set.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/daw/deprecated/daw_bounded_hash_set.h b/include/daw/deprecated/daw_bounded_hash_set.h
index 02953b4..4effc8b 100644
--- a/include/daw/deprecated/daw_bounded_hash_set.h
+++ b/include/daw/deprecated/daw_bounded_hash_set.h
@@ -404,8 +404,8 @@ namespace daw {
 
 		[[nodiscard]] constexpr size_type size( ) const noexcept {
 			return daw::algorithm::accumulate(
-			  std::begin( m_data ), std::end( m_data ), 0ULL, []( auto const &opt ) {
-				  return opt.has_value ? 1ULL : 0ULL;
+			  std::begin( m_data ), std::end( m_data ), size_type{ 0 }, []( size_type count, auto const &opt ) {
+				  return opt.has_value ? count + 1U : count;
 			  } );
 		}
 
@@ -464,15 +464,15 @@ namespace daw {
 
 		constexpr iterator find( Key const &key ) noexcept {
 			auto idx = find_index( hasher{ }( key ), key );
-			if( !idx ) {
+			if( !idx or !m_data[*idx].has_value ) {
 				return end( );
 			}
 			return { m_data.data( ), m_data.data( ) + m_data.size( ), &m_data[*idx] };
 		}
 
 		constexpr const_iterator find( Key const &key ) const noexcept {
-			auto idx = find_index( key );
-			if( !idx ) {
+			auto idx = find_index( hasher{ }( key ), key );
+			if( !idx or !m_data[*idx].has_value ) {
 				return end( );
 			}
 			return { m_data.data( ), m_data.data( ) + m_data.size( ), &m_data[*idx] };
-- 
2.43.0


From 1116358cf1878773de683c5790e4e44eb36be1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:24 +0000
Subject: [PATCH 217/248] fix: bounded graph nodes are equal when both the
 identifier and the graph are

---
 include/daw/deprecated/daw_bounded_graph.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/daw/deprecated/daw_bounded_graph.h b/include/daw/deprecated/daw_bounded_graph.h
index 0add992..6ad0cb7 100644
--- a/include/daw/deprecated/daw_bounded_graph.h
+++ b/include/daw/deprecated/daw_bounded_graph.h
@@ -235,15 +235,15 @@ namespace daw {
 		}
 
 		template<typename Rhs>
-		constexpr bool operator==( Rhs const &rhs ) noexcept {
+		constexpr bool operator==( Rhs const &rhs ) const noexcept {
 			static_assert( is_bounded_graph_node_v<Rhs>,
 			               "Can only do comparison with another graph node proxy" );
-			return m_node_id == rhs.id( ) or
+			return m_node_id == rhs.id( ) and
 			       std::equal_to<>{ }( m_graph, rhs.graph( ) );
 		}
 
 		template<typename Rhs>
-		constexpr bool operator!=( Rhs const &rhs ) noexcept {
+		constexpr bool operator!=( Rhs const &rhs ) const noexcept {
 			static_assert( is_bounded_graph_node_v<Rhs>,
 			               "Can only do comparison with another graph node proxy" );
 			return m_node_id != rhs.id( ) or
@@ -251,7 +251,7 @@ namespace daw {
 		}
 
 		template<typename Rhs>
-		constexpr bool operator<( Rhs const &rhs ) noexcept {
+		constexpr bool operator<( Rhs const &rhs ) const noexcept {
 			static_assert( is_bounded_graph_node_v<Rhs>,
 			               "Can only do comparison with another graph node proxy" );
 			daw::exception::dbg_precondition_check(
@@ -342,7 +342,7 @@ namespace daw {
 		constexpr bool operator==( Rhs const &rhs ) const noexcept {
 			static_assert( is_bounded_graph_node_v<Rhs>,
 			               "Can only do comparison with another graph node proxy" );
-			return m_node_id == rhs.id( ) or
+			return m_node_id == rhs.id( ) and
 			       std::equal_to<>{ }( m_graph, rhs.graph( ) );
 		}
 
-- 
2.43.0


From 14a5ed6201d3945252d8591673500766eae44e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:24 +0000
Subject: [PATCH 218/248] fix: a default constructed fixed_lookup is empty

---
 include/daw/deprecated/daw_fixed_lookup.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/deprecated/daw_fixed_lookup.h b/include/daw/deprecated/daw_fixed_lookup.h
index 88e1838..ce30236 100644
--- a/include/daw/deprecated/daw_fixed_lookup.h
+++ b/include/daw/deprecated/daw_fixed_lookup.h
@@ -68,8 +68,8 @@ namespace daw {
 		using const_reference = value_t const &;
 
 	private:
-		std::array<hash_value_t, N> m_hashes;
-		std::array<value_t, N> m_values;
+		std::array<hash_value_t, N> m_hashes{ };
+		std::array<value_t, N> m_values{ };
 
 	public:
 		static constexpr hash_value_t capacity( ) noexcept {
-- 
2.43.0


From 703825eacc00fa9e24b5ca7533a75af7e9f8a0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:24 +0000
Subject: [PATCH 219/248] fix: bounded_hash_map try_get and empty compile

---
 include/daw/deprecated/daw_bounded_hash_map.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/deprecated/daw_bounded_hash_map.h b/include/daw/deprecated/daw_bounded_hash_map.h
index cf69d98..00b4981 100644
--- a/include/daw/deprecated/daw_bounded_hash_map.h
+++ b/include/daw/deprecated/daw_bounded_hash_map.h
@@ -462,7 +462,7 @@ namespace daw {
 			if( not item ) {
 				return { };
 			}
-			return item.kv.value;
+			return daw::optional<mapped_type const &>( item.kv.value );
 		}
 
 		constexpr size_type count( Key const &key ) const {
@@ -493,7 +493,7 @@ namespace daw {
 			return daw::algorithm::find_if( std::cbegin( m_data ),
 			                                std::cend( m_data ),
 			                                []( auto const &value ) {
-				                                return value;
+				                                return static_cast<bool>( value );
 			                                } ) == std::cend( m_data );
 		}
 
-- 
2.43.0


From 2a991771402875f91a33dab4cff45e9f06feaf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:24 +0000
Subject: [PATCH 220/248] fix: fixed_lookup with narrow hashes compiles

---
 include/daw/deprecated/daw_fixed_lookup.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/deprecated/daw_fixed_lookup.h b/include/daw/deprecated/daw_fixed_lookup.h
index ce30236..e46ff70 100644
--- a/include/daw/deprecated/daw_fixed_lookup.h
+++ b/include/daw/deprecated/daw_fixed_lookup.h
@@ -134,7 +134,8 @@ namespace daw {
 					return lookup_result_t{ n, false };
 				}
 			}
-			return lookup_result_t{ m_hashes.size( ), false };
+			return lookup_result_t{ static_cast<hash_value_t>( m_hashes.size( ) ),
+			                        false };
 		}
 
 	public:
-- 
2.43.0


From 2b5ca009e67f16b8ee1c6127d781f132e8665488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:02 +0000
Subject: [PATCH 221/248] fix: sv1 string_view::clear compiles

---
 include/daw/deprecated/daw_string_view1.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/deprecated/daw_string_view1.h b/include/daw/deprecated/daw_string_view1.h
index 86a757a..01bf674 100644
--- a/include/daw/deprecated/daw_string_view1.h
+++ b/include/daw/deprecated/daw_string_view1.h
@@ -405,7 +405,7 @@ namespace daw {
 
 			constexpr void clear( ) {
 				m_first = nullptr;
-				m_last = make_last<BoundsType>( nullptr, 0 );
+				m_last = make_last<BoundsType>( nullptr, nullptr );
 			}
 
 			[[nodiscard]] constexpr CharT pop_front( ) {
-- 
2.43.0


From fbfafa78a4ec68d4e7a14be73627a71f2b06e8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:02 +0000
Subject: [PATCH 222/248] fix: sv1 string_view::resize works for both bounds
 types

---
 include/daw/deprecated/daw_string_view1.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/deprecated/daw_string_view1.h b/include/daw/deprecated/daw_string_view1.h
index 01bf674..65b1248 100644
--- a/include/daw/deprecated/daw_string_view1.h
+++ b/include/daw/deprecated/daw_string_view1.h
@@ -560,7 +560,7 @@ namespace daw {
 
 			constexpr void resize( std::size_t const n ) {
 				daw::exception::precondition_check<std::out_of_range>( n < size( ) );
-				m_last = std::next( m_first, static_cast<ptrdiff_t>( n ) );
+				m_last = make_last<BoundsType>( m_first, n );
 			}
 
 			constexpr void swap( basic_string_view &v ) {
-- 
2.43.0


From 2440290f80cdbdc259de411aa5d924129cb5336b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:02 +0000
Subject: [PATCH 223/248] fix: sv1 string_view::find with a start behind the
 end reports npos instead of reading past the view

---
 include/daw/deprecated/daw_string_view1.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/deprecated/daw_string_view1.h b/include/daw/deprecated/daw_string_view1.h
index 65b1248..1320e07 100644
--- a/include/daw/deprecated/daw_string_view1.h
+++ b/include/daw/deprecated/daw_string_view1.h
@@ -679,7 +679,7 @@ namespace daw {
 			find( basic_string_view<CharT, Bounds, Ex> const v,
 			      size_type const pos = 0 ) const {
 
-				if( size( ) < v.size( ) ) {
+				if( pos > size( ) or size( ) - pos < v.size( ) ) {
 					return npos;
 				}
 				if( v.empty( ) ) {
-- 
2.43.0


From f0942e9ee118f69669012b2741460da45f1af1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:02 +0000
Subject: [PATCH 224/248] fix: sv1 string_view::search and search_last find
 occurrences that reach the end and the last occurrence

---
 include/daw/deprecated/daw_string_view1.h | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/include/daw/deprecated/daw_string_view1.h b/include/daw/deprecated/daw_string_view1.h
index 1320e07..4fda89a 100644
--- a/include/daw/deprecated/daw_string_view1.h
+++ b/include/daw/deprecated/daw_string_view1.h
@@ -779,7 +779,7 @@ namespace daw {
 			[[nodiscard]] constexpr size_type
 			search( basic_string_view<CharT, Bounds, Ex> const v,
 			        size_type const pos = 0 ) const {
-				if( pos + v.size( ) >= size( ) or v.empty( ) ) {
+				if( pos > size( ) or v.size( ) > size( ) - pos or v.empty( ) ) {
 					return npos;
 				}
 				auto const iter =
@@ -799,17 +799,11 @@ namespace daw {
 			[[nodiscard]] constexpr size_type
 			search_last( basic_string_view<CharT, Bounds, Ex> const v,
 			             size_type const pos = 0 ) const {
-				if( pos + v.size( ) >= size( ) or v.empty( ) ) {
-					return npos;
-				}
-				auto last_pos = pos;
+				auto last_pos = npos;
 				auto fpos = search( v, pos );
 				while( fpos != npos ) {
 					last_pos = fpos;
-					fpos = search( v, fpos );
-					if( fpos == last_pos ) {
-						break;
-					}
+					fpos = search( v, fpos + 1 );
 				}
 				return last_pos;
 			}
-- 
2.43.0


From e1dade8eacd437bc5532445ba2bbc93c635afcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:02 +0000
Subject: [PATCH 225/248] fix: sv1 string_view::find_last_of( character )
 searches backwards from pos, first character included

---
 include/daw/deprecated/daw_string_view1.h | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/include/daw/deprecated/daw_string_view1.h b/include/daw/deprecated/daw_string_view1.h
index 4fda89a..7117c27 100644
--- a/include/daw/deprecated/daw_string_view1.h
+++ b/include/daw/deprecated/daw_string_view1.h
@@ -921,18 +921,9 @@ namespace daw {
 
 			[[nodiscard]] constexpr size_type
 			find_last_of( CharT const c, size_type pos = npos ) const {
-				if( pos >= size( ) ) {
-					pos = 0;
-				}
-				auto first = std::prev( m_last );
-				auto const last = std::next( m_first, pos );
-				while( first != last ) {
-					if( *first == c ) {
-						return static_cast<size_type>( std::distance( m_first, first ) );
-					}
-					--first;
-				}
-				return npos;
+				return find_last_of(
+				  basic_string_view<CharT, BoundsType>( std::addressof( c ), 1U ),
+				  pos );
 			}
 
 			template<size_type N>
-- 
2.43.0


From 6c548d4a106fd557d23c1a69536df4a60c2559ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:02 +0000
Subject: [PATCH 226/248] fix: the element type deduced for a string_view of a
 range is the character type

---
 include/daw/daw_string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 0c38444..d29d401 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -2828,7 +2828,7 @@ namespace daw {
 
 		// CTAD
 		template<typename StringView, typename CharT = std::decay_t<DAW_TYPEOF(
-		                                std::data( std::declval<StringView>( ) ) )>>
+		                                *std::data( std::declval<StringView>( ) ) )>>
 		basic_string_view( StringView && ) -> basic_string_view<CharT>;
 
 		template<typename CharT>
-- 
2.43.0


From f27c15b04dc1dae0a0295a25858366b9cca29b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:02 +0000
Subject: [PATCH 227/248] fix: daw_string_split_range.h compiles: the
 string_view overload of split_string matches the current string_view

---
 include/daw/deprecated/daw_string_split_range.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/daw/deprecated/daw_string_split_range.h b/include/daw/deprecated/daw_string_split_range.h
index 6da428a..05f4994 100644
--- a/include/daw/deprecated/daw_string_split_range.h
+++ b/include/daw/deprecated/daw_string_split_range.h
@@ -182,15 +182,13 @@ namespace daw {
 		         daw::sv1::basic_string_view<CharT, Bounds, N - 1>( delemiter ) };
 	}
 
-	template<typename CharT,
-	         daw::sv2::string_view_bounds_type Bounds,
-	         std::ptrdiff_t Ex,
-	         size_t N>
+	template<typename CharT, size_t N>
 	constexpr string_split_range<CharT>
-	split_string( daw::sv2::basic_string_view<CharT, Bounds> str,
+	split_string( daw::sv2::basic_string_view<CharT> str,
 	              CharT const ( &delemiter )[N] ) noexcept {
 
-		return { str, daw::sv2::basic_string_view<CharT, Bounds>( delemiter ) };
+		return { daw::sv1::basic_string_view<CharT>( str.data( ), str.size( ) ),
+		         daw::sv1::basic_string_view<CharT>( delemiter, N - 1 ) };
 	}
 
 	template<typename CharT,
-- 
2.43.0


From 619f2de4611ca3bb568901324ae2d6dae7b00252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:02 +0000
Subject: [PATCH 228/248] fix: post increment of a string_split_iterator
 advances it and returns the old position

---
 include/daw/deprecated/daw_string_split_range.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/deprecated/daw_string_split_range.h b/include/daw/deprecated/daw_string_split_range.h
index 05f4994..471f6ea 100644
--- a/include/daw/deprecated/daw_string_split_range.h
+++ b/include/daw/deprecated/daw_string_split_range.h
@@ -65,9 +65,9 @@ namespace daw {
 			return *this;
 		}
 
-		constexpr string_split_iterator operator++( int ) const noexcept {
+		constexpr string_split_iterator operator++( int ) noexcept {
 			string_split_iterator tmp{ *this };
-			tmp.move_next( );
+			move_next( );
 			return tmp;
 		}
 
-- 
2.43.0


From 44c8ad6c47053887ca9e7d713e786bf4fcb127c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:02 +0000
Subject: [PATCH 229/248] fix: trim_left of a text made of delimiters only
 gives an empty text

---
 include/daw/deprecated/daw_string.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/daw/deprecated/daw_string.h b/include/daw/deprecated/daw_string.h
index e7ca742..7d3d5fd 100644
--- a/include/daw/deprecated/daw_string.h
+++ b/include/daw/deprecated/daw_string.h
@@ -322,7 +322,8 @@ namespace daw::string {
 		if( str.empty( ) ) {
 			return str;
 		}
-		return str.substr( str.find_first_not_of( delimiters ) );
+		return str.substr(
+		  (std::min)( str.find_first_not_of( delimiters ), str.size( ) ) );
 	}
 
 	template<typename CharT = char,
@@ -335,7 +336,8 @@ namespace daw::string {
 		if( str.empty( ) ) {
 			return;
 		}
-		str = str.substr( str.find_first_not_of( delimiters ) );
+		str = str.substr(
+		  (std::min)( str.find_first_not_of( delimiters ), str.size( ) ) );
 	}
 
 	template<class StringElementType, class StringType>
-- 
2.43.0


From 45370ca4fede72dc8955058dcd27de0c6599d5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:02 +0000
Subject: [PATCH 230/248] fix: ends_with compares the whole ending

---
 include/daw/deprecated/daw_string.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/daw/deprecated/daw_string.h b/include/daw/deprecated/daw_string.h
index 7d3d5fd..3d56554 100644
--- a/include/daw/deprecated/daw_string.h
+++ b/include/daw/deprecated/daw_string.h
@@ -217,8 +217,10 @@ namespace daw::string {
 
 		bool operator( )( StringType const &src,
 		                  StringType const &ending ) const noexcept {
-			auto pos = src.find_last_of( ending );
-			return string_details::string_t::npos != pos and pos == src.size( ) - 1;
+			return ending.size( ) <= src.size( ) and
+			       src.compare( src.size( ) - ending.size( ),
+			                    ending.size( ),
+			                    ending ) == 0;
 		}
 	};
 
-- 
2.43.0


From 6988a3696a41b319fe0d08cdcc9c96f183af2c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:02 +0000
Subject: [PATCH 231/248] fix: search_replace of an empty text terminates

---
 include/daw/deprecated/daw_string.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/daw/deprecated/daw_string.h b/include/daw/deprecated/daw_string.h
index 3d56554..fb058e8 100644
--- a/include/daw/deprecated/daw_string.h
+++ b/include/daw/deprecated/daw_string.h
@@ -401,6 +401,9 @@ namespace daw::string {
 		size_t pos = 0u;
 		auto const search_for_len = str_size( search_for );
 		auto const replace_with_len = str_size( replace_with );
+		if( search_for_len == 0 ) {
+			return;
+		}
 
 		while( ( pos = in_str.find( search_for, pos ) ) !=
 		       std::basic_string<CharT, traits, Alloc>::npos ) {
-- 
2.43.0


From 8c062420f8b4d11be85848ae93760f6458ddf03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:57 +0000
Subject: [PATCH 232/248] fix: a mutable contiguous_view refuses the index one
 past its end like the read-only one

---
 include/daw/daw_contiguous_view.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_contiguous_view.h b/include/daw/daw_contiguous_view.h
index 8e2afa2..6a4a9a2 100644
--- a/include/daw/daw_contiguous_view.h
+++ b/include/daw/daw_contiguous_view.h
@@ -192,13 +192,13 @@ namespace daw {
 		}
 
 		[[nodiscard]] constexpr reference operator[]( size_type index ) noexcept {
-			assert( static_cast<size_type>( m_last - m_first ) >= index );
+			assert( index < size( ) );
 			return *( m_first + index );
 		}
 
 		[[nodiscard]] constexpr const_reference
 		operator[]( size_type index ) const noexcept {
-			assert( static_cast<size_type>( m_last - m_first ) >= index );
+			assert( index < size( ) );
 			return *( m_first + index );
 		}
 
-- 
2.43.0


From 42da98530266a359763c930902c430c2f4d106d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:52 +0000
Subject: [PATCH 233/248] fix: a memory mapped file that holds no file answers
 as empty instead of stopping the program

---
 include/daw/daw_memory_mapped_file.h | 22 +++++++++++-----------
 include/daw/daw_unique_resource.h    |  4 ++++
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/include/daw/daw_memory_mapped_file.h b/include/daw/daw_memory_mapped_file.h
index cc6d53c..b4dc9f5 100644
--- a/include/daw/daw_memory_mapped_file.h
+++ b/include/daw/daw_memory_mapped_file.h
@@ -119,47 +119,47 @@ namespace daw::filesystem {
 		}
 
 		[[nodiscard]] constexpr pointer data( ) noexcept {
-			return m_fdata->ptr;
+			return m_fdata ? m_fdata->ptr : nullptr;
 		}
 
 		[[nodiscard]] constexpr const_pointer data( ) const noexcept {
-			return m_fdata->ptr;
+			return m_fdata ? m_fdata->ptr : nullptr;
 		}
 
 		[[nodiscard]] constexpr pointer begin( ) noexcept {
-			return m_fdata->ptr;
+			return data( );
 		}
 
 		[[nodiscard]] constexpr const_pointer begin( ) const noexcept {
-			return m_fdata->ptr;
+			return data( );
 		}
 
 		[[nodiscard]] constexpr const_pointer cbegin( ) const noexcept {
-			return m_fdata->ptr;
+			return data( );
 		}
 
 		[[nodiscard]] constexpr pointer end( ) noexcept {
-			return m_fdata->ptr + static_cast<ptrdiff_t>( m_fdata->size );
+			return data( ) + static_cast<ptrdiff_t>( size( ) );
 		}
 
 		[[nodiscard]] constexpr const_pointer end( ) const noexcept {
-			return m_fdata->ptr + static_cast<ptrdiff_t>( m_fdata->size );
+			return data( ) + static_cast<ptrdiff_t>( size( ) );
 		}
 
 		[[nodiscard]] constexpr const_pointer cend( ) const noexcept {
-			return m_fdata->ptr + static_cast<ptrdiff_t>( m_fdata->size );
+			return data( ) + static_cast<ptrdiff_t>( size( ) );
 		}
 
 		[[nodiscard]] constexpr size_type size( ) const noexcept {
-			return m_fdata->size;
+			return m_fdata ? m_fdata->size : 0;
 		}
 
 		[[nodiscard]] constexpr bool empty( ) const noexcept {
-			return not( *this ) or m_fdata->size == 0;
+			return not( *this ) or size( ) == 0;
 		}
 
 		constexpr explicit operator bool( ) const noexcept {
-			return m_fdata->file >= 0 and m_fdata->ptr != nullptr;
+			return m_fdata and m_fdata->file >= 0 and m_fdata->ptr != nullptr;
 		}
 
 		template<typename Traits>
diff --git a/include/daw/daw_unique_resource.h b/include/daw/daw_unique_resource.h
index c6d40b0..d9623e4 100644
--- a/include/daw/daw_unique_resource.h
+++ b/include/daw/daw_unique_resource.h
@@ -74,6 +74,10 @@ namespace daw {
 			return std::move( *result );
 		}
 
+		constexpr explicit operator bool( ) const noexcept {
+			return value.has_value( );
+		}
+
 		constexpr T &get( ) noexcept {
 			assert( value );
 			return *value;
-- 
2.43.0


From 3f999f3b14646575a6f093d7d464dbfe5a15a762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:53 +0000
Subject: [PATCH 234/248] fix: a memory mapped file counts the elements it
 holds, not their bytes

---
 include/daw/daw_memory_mapped_file.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_memory_mapped_file.h b/include/daw/daw_memory_mapped_file.h
index b4dc9f5..484c81b 100644
--- a/include/daw/daw_memory_mapped_file.h
+++ b/include/daw/daw_memory_mapped_file.h
@@ -151,7 +151,7 @@ namespace daw::filesystem {
 		}
 
 		[[nodiscard]] constexpr size_type size( ) const noexcept {
-			return m_fdata ? m_fdata->size : 0;
+			return m_fdata ? m_fdata->size / sizeof( value_type ) : 0;
 		}
 
 		[[nodiscard]] constexpr bool empty( ) const noexcept {
-- 
2.43.0


From c22513278d029a769864e6356ada4a81fd1eec37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:53 +0000
Subject: [PATCH 235/248] fix: a memory mapped file that could not be mapped is
 not unmapped

---
 include/daw/daw_memory_mapped_file.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_memory_mapped_file.h b/include/daw/daw_memory_mapped_file.h
index 484c81b..727bd1a 100644
--- a/include/daw/daw_memory_mapped_file.h
+++ b/include/daw/daw_memory_mapped_file.h
@@ -98,15 +98,16 @@ namespace daw::filesystem {
 				}
 				m_fdata->size = static_cast<size_type>( fsz );
 			}
-			m_fdata->ptr = static_cast<pointer>(
+			void *const ptr =
 			  mmap( nullptr, m_fdata->size,
 			        mode == open_mode::read ? PROT_READ : PROT_READ | PROT_WRITE,
-			        MAP_SHARED, m_fdata->file, 0 ) );
+			        MAP_SHARED, m_fdata->file, 0 );
 
-			if( m_fdata->ptr == MAP_FAILED ) {
+			if( ptr == MAP_FAILED ) {
 				m_fdata.reset( );
 				return false;
 			}
+			m_fdata->ptr = static_cast<pointer>( ptr );
 			return true;
 		}
 
-- 
2.43.0


From 4a555f1b65a815531b601b25d0feea73e67a9497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:53 +0000
Subject: [PATCH 236/248] fix: read_file closes the file it opened

---
 include/daw/daw_read_file.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/daw/daw_read_file.h b/include/daw/daw_read_file.h
index 2c3f73a..120ce33 100644
--- a/include/daw/daw_read_file.h
+++ b/include/daw/daw_read_file.h
@@ -53,6 +53,7 @@ namespace daw {
 		}
 #endif
 		auto num_read = fread( result.data( ), sizeof( CharT ), result.size( ), f );
+		fclose( f );
 		if( num_read != ( result.size( ) / sizeof( CharT ) ) ) {
 			return std::nullopt;
 		}
-- 
2.43.0


From 50a4bfc2402b4f7b79bd9ec96b0d8822cdf46029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:53 +0000
Subject: [PATCH 237/248] fix: read_file of wide characters gives as many
 characters as the file holds

---
 include/daw/daw_read_file.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_read_file.h b/include/daw/daw_read_file.h
index 120ce33..996df71 100644
--- a/include/daw/daw_read_file.h
+++ b/include/daw/daw_read_file.h
@@ -38,8 +38,8 @@ namespace daw {
 			// File is too big to fit into string(WIN32)
 			return std::nullopt;
 		}
-		auto result =
-		  std::basic_string<CharT>( static_cast<std::size_t>( fsize ), CharT{ } );
+		auto result = std::basic_string<CharT>(
+		  static_cast<std::size_t>( fsize / sizeof( CharT ) ), CharT{ } );
 #if defined( _MSC_VER )
 		FILE *f = nullptr;
 		auto err = fopen_s( &f, path.c_str( ), "rb" );
@@ -54,7 +54,7 @@ namespace daw {
 #endif
 		auto num_read = fread( result.data( ), sizeof( CharT ), result.size( ), f );
 		fclose( f );
-		if( num_read != ( result.size( ) / sizeof( CharT ) ) ) {
+		if( num_read != result.size( ) ) {
 			return std::nullopt;
 		}
 		return result;
-- 
2.43.0


From ecfe3f07d730267ee7803bef110fdbe94f34ff75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:53 +0000
Subject: [PATCH 238/248] fix: a memory mapped file of const elements compiles

---
 include/daw/daw_memory_mapped_file.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_memory_mapped_file.h b/include/daw/daw_memory_mapped_file.h
index 727bd1a..3c0c1e1 100644
--- a/include/daw/daw_memory_mapped_file.h
+++ b/include/daw/daw_memory_mapped_file.h
@@ -57,7 +57,7 @@ namespace daw::filesystem {
 		struct cleanup_t {
 			constexpr void operator( )( fdata_t &d ) noexcept {
 				if( auto *p = daw::exchange( d.ptr, nullptr ); p ) {
-					munmap( p, d.size );
+					munmap( const_cast<std::remove_const_t<T> *>( p ), d.size );
 				}
 				d.size = 0;
 				if( auto fid = daw::exchange( d.file, -1 ); fid >= 0 ) {
-- 
2.43.0


From 765235d3365ec311d147e3f905f618b46ea0a278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:53 +0000
Subject: [PATCH 239/248] fix: assigning a vector with another allocator gives
 no null block back

---
 include/daw/vector.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/daw/vector.h b/include/daw/vector.h
index 9640f4d..bbadd99 100644
--- a/include/daw/vector.h
+++ b/include/daw/vector.h
@@ -1229,9 +1229,7 @@ namespace daw {
 
 		constexpr void copy_assign_alloc( vector const &c, std::true_type ) {
 			if( alloc( ) != c.alloc( ) ) {
-				clear( );
-				alloc_traits::deallocate( alloc( ), m_begin, capacity( ) );
-				m_begin = m_end = endcap( ) = nullptr;
+				vdeallocate( );
 			}
 			alloc( ) = c.alloc( );
 		}
-- 
2.43.0


From 056700fb1db3751a51d2a8215c20f96ff2b092eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:53 +0000
Subject: [PATCH 240/248] fix: a guard run ahead of time does not run its
 handler again when the handler throws

---
 include/daw/daw_scope_guard.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_scope_guard.h b/include/daw/daw_scope_guard.h
index 71968ce..32a35e7 100644
--- a/include/daw/daw_scope_guard.h
+++ b/include/daw/daw_scope_guard.h
@@ -73,10 +73,12 @@ namespace daw {
 		}
 
 		DAW_ATTRIB_INLINE constexpr void
-		run_now( ) noexcept( std::is_nothrow_invocable_v<FunctionType> ) {
+		run_now( ) noexcept( std::is_nothrow_invocable_v<FunctionType> and
+		                     std::is_nothrow_move_constructible_v<FunctionType> ) {
 			assert( m_function );
-			(void)( *m_function )( );
+			auto handler = std::move( *m_function );
 			cancel( );
+			(void)handler( );
 		}
 
 		DAW_ATTRIB_INLINE DAW_SG_CXDTOR ~ScopeGuard( ) noexcept(
-- 
2.43.0


From 5e7ab888a5bbe3d4392bd4d8390a881a8bfa66a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:10 +0000
Subject: [PATCH 241/248] fix: moving an iterator safely takes a count of any
 size

---
 include/daw/daw_algorithm.h | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index 8812788..5915a73 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -32,6 +32,7 @@
 #include <algorithm>
 #include <array>
 #include <cstddef>
+#include <cstdint>
 #include <daw/stdinc/compare_fn.h>
 #include <daw/stdinc/data_access.h>
 #include <daw/stdinc/range_access.h>
@@ -85,6 +86,17 @@ namespace daw {
 
 	// Iterator movement functions
 	namespace algorithm_details {
+		/// A count that is larger than any distance moves as far as possible
+		template<typename Distance>
+		constexpr ptrdiff_t safe_distance( Distance distance ) noexcept {
+			if constexpr( std::is_unsigned_v<Distance> ) {
+				if( distance > static_cast<size_t>( PTRDIFF_MAX ) ) {
+					return PTRDIFF_MAX;
+				}
+			}
+			return static_cast<ptrdiff_t>( distance );
+		}
+
 		template<typename Iterator, typename Iterator2, typename Iterator3,
 		         typename Distance,
 		         daw::enable_when_t<
@@ -114,8 +126,7 @@ namespace daw {
 					it = first;
 					return;
 				}
-				dist = -dist;
-				it -= (daw::min)( static_cast<ptrdiff_t>( dist_to_first ),
+				it += (daw::max)( static_cast<ptrdiff_t>( -dist_to_first ),
 				                  static_cast<ptrdiff_t>( dist ) );
 				return;
 			}
@@ -145,7 +156,7 @@ namespace daw {
 
 		using std::begin;
 		using std::end;
-		auto const d = static_cast<ptrdiff_t>( distance );
+		auto const d = algorithm_details::safe_distance( distance );
 		algorithm_details::safe_advance_impl( begin( container ), it,
 		                                      end( container ), d );
 	}
@@ -166,7 +177,7 @@ namespace daw {
 
 		using std::begin;
 		using std::end;
-		auto const d = static_cast<ptrdiff_t>( distance );
+		auto const d = algorithm_details::safe_distance( distance );
 		algorithm_details::safe_advance_impl( begin( container ), it,
 		                                      end( container ), d );
 	}
@@ -184,7 +195,7 @@ namespace daw {
 	  noexcept( daw::next( it, static_cast<std::ptrdiff_t>( n ) ) ) ) {
 
 		traits::is_iterator_test<Iterator>( );
-		auto const d = static_cast<ptrdiff_t>( n );
+		auto const d = algorithm_details::safe_distance( n );
 		algorithm_details::safe_advance_impl( it, it, last, d );
 		return it;
 	}
@@ -202,7 +213,7 @@ namespace daw {
 	  noexcept( daw::prev( it, static_cast<std::ptrdiff_t>( n ) ) ) ) {
 
 		traits::is_iterator_test<Iterator>( );
-		auto const d = static_cast<ptrdiff_t>( n );
+		auto const d = algorithm_details::safe_distance( n );
 		algorithm_details::safe_advance_impl( first, it, it, -d );
 		return it;
 	}
@@ -221,7 +232,7 @@ namespace daw {
 
 		traits::is_container_like_test<Container>( );
 		auto result = std::begin( container );
-		safe_advance( container, result, static_cast<ptrdiff_t>( n ) );
+		safe_advance( container, result, n );
 		return result;
 	}
 
@@ -240,7 +251,7 @@ namespace daw {
 		traits::is_container_like_test<Container>( );
 
 		auto result = std::cbegin( container );
-		safe_advance( container, result, static_cast<ptrdiff_t>( n ) );
+		safe_advance( container, result, n );
 		return result;
 	}
 } // namespace daw
-- 
2.43.0


From da51f3045b22fca797bde6064babd19abb2f96ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:10 +0000
Subject: [PATCH 242/248] fix: taking or skipping more elements than any range
 can hold takes or skips them all

---
 include/daw/pipelines/skip.h | 8 ++++----
 include/daw/pipelines/take.h | 9 ++++-----
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/include/daw/pipelines/skip.h b/include/daw/pipelines/skip.h
index d92bce6..2a44c27 100644
--- a/include/daw/pipelines/skip.h
+++ b/include/daw/pipelines/skip.h
@@ -27,10 +27,10 @@ namespace daw::pipelines::pimpl {
 			auto last = std::end( r );
 
 			if constexpr( ForwardIterator<iter_t> ) {
-				auto const range_size = std::distance( first, last );
-				auto const skip =
-				  std::min( { static_cast<std::ptrdiff_t>( how_many ), range_size } );
-				first = std::next( first, skip );
+				auto const range_size =
+				  static_cast<std::size_t>( std::distance( first, last ) );
+				auto const skip = std::min( { how_many, range_size } );
+				first = std::next( first, static_cast<std::ptrdiff_t>( skip ) );
 			} else {
 				// Input
 				for( auto n = how_many; n > 0; --n ) {
diff --git a/include/daw/pipelines/take.h b/include/daw/pipelines/take.h
index b3ce56d..6d483c7 100644
--- a/include/daw/pipelines/take.h
+++ b/include/daw/pipelines/take.h
@@ -32,11 +32,10 @@ namespace daw::pipelines::pimpl {
 			auto last = std::end( r );
 
 			if constexpr( ForwardIterator<iter_t> ) {
-				auto const range_size = std::distance( first, last );
-				auto take_size =
-				  std::min( { range_size, static_cast<std::ptrdiff_t>( how_many ) } );
-				return range_t{ sized_iterator<iter_t>{
-				                  first, static_cast<std::size_t>( take_size ) },
+				auto const range_size =
+				  static_cast<std::size_t>( std::distance( first, last ) );
+				auto const take_size = std::min( { range_size, how_many } );
+				return range_t{ sized_iterator<iter_t>{ first, take_size },
 				                sized_iterator<iter_t>{ last, 0 } };
 			} else {
 				return range_t{ sized_iterator<iter_t>{ first, how_many },
-- 
2.43.0


From 605c6650305ce5961828c46c2c6a7002ea249594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:10 +0000
Subject: [PATCH 243/248] fix: chunks and windows larger than any range can
 hold do not have a negative size

---
 include/daw/pipelines/chunk.h | 2 +-
 include/daw/pipelines/slide.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/pipelines/chunk.h b/include/daw/pipelines/chunk.h
index 45f149c..f335d0f 100644
--- a/include/daw/pipelines/chunk.h
+++ b/include/daw/pipelines/chunk.h
@@ -64,7 +64,7 @@ namespace daw::pipelines::pimpl {
 		  : m_range{ DAW_FWD( r ) }
 		  , m_iter{ std::begin( m_range ) }
 		  , m_last{ std::end( m_range ) }
-		  , m_chunk_size{ static_cast<difference_type>( chunk_size ) } {}
+		  , m_chunk_size{ algorithm_details::safe_distance( chunk_size ) } {}
 
 		[[nodiscard]] constexpr iterator &base( ) {
 			return m_iter;
diff --git a/include/daw/pipelines/slide.h b/include/daw/pipelines/slide.h
index 1aff881..06dac18 100644
--- a/include/daw/pipelines/slide.h
+++ b/include/daw/pipelines/slide.h
@@ -78,7 +78,7 @@ namespace daw::pipelines::pimpl {
 		explicit constexpr slide_view( Range auto &&r, std::size_t slide_size )
 		  : m_range{ DAW_FWD( r ) }
 		  , m_iter{ std::begin( m_range ) }
-		  , m_slide_size{ static_cast<difference_type>( slide_size ) } {
+		  , m_slide_size{ algorithm_details::safe_distance( slide_size ) } {
 			skip_short_window( );
 		}
 
-- 
2.43.0


From 67b2150fb597d5c22b22ccc405c319079e1935eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:21 +0000
Subject: [PATCH 244/248] fix: stepping a bidirectional iterator backwards by n
 moves it n steps, not n-1

---
 include/daw/cpp_17_iterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/cpp_17_iterator.h b/include/daw/cpp_17_iterator.h
index 822c211..51272eb 100644
--- a/include/daw/cpp_17_iterator.h
+++ b/include/daw/cpp_17_iterator.h
@@ -66,7 +66,7 @@ namespace daw {
 					++first;
 				}
 			} else {
-				while( ++n < 0 ) {
+				while( n++ < 0 ) {
 					--first;
 				}
 			}
-- 
2.43.0


From abe79c6b3f2b9de26cd13e3ec034a5d5a1c4c25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:01 +0000
Subject: [PATCH 245/248] fix: moving a C file handle takes the file of the
 source

---
 include/daw/deprecated/daw_cfile.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/deprecated/daw_cfile.h b/include/daw/deprecated/daw_cfile.h
index 3dc588e..78b36fe 100644
--- a/include/daw/deprecated/daw_cfile.h
+++ b/include/daw/deprecated/daw_cfile.h
@@ -30,7 +30,7 @@ namespace daw {
 		  : ptr( exchange( other.ptr, nullptr ) ) {}
 
 		constexpr CFile &operator=( CFile &&rhs ) noexcept {
-			reset( release( ) );
+			reset( rhs.release( ) );
 			return *this;
 		}
 
-- 
2.43.0


From 8209ffc4237bfc3ca1965859bbb8c5ac3af3ecc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:09 +0000
Subject: [PATCH 246/248] fix: range and tuple formatters accept a format
 specification on an indexed argument

---
 include/daw/daw_format_range.h | 8 ++++----
 include/daw/daw_format_tuple.h | 9 ++++-----
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/include/daw/daw_format_range.h b/include/daw/daw_format_range.h
index ff5a6cf..96b6954 100644
--- a/include/daw/daw_format_range.h
+++ b/include/daw/daw_format_range.h
@@ -17,6 +17,7 @@
 
 #include <cassert>
 #include <format>
+#include <string>
 #include <string_view>
 
 namespace daw {
@@ -59,7 +60,7 @@ namespace daw {
 namespace std {
 	template<daw::Range R, typename CharT>
 	struct formatter<daw::fmt_range<R, CharT>, CharT> {
-		daw::string_view flags = { };
+		std::string flags = { };
 
 		formatter( ) = default;
 
@@ -103,9 +104,8 @@ namespace std {
 				f.remove_prefix( );
 			}
 			auto const sz = std::distance( first, last );
-			flags = daw::string_view( first, static_cast<std::size_t>( sz ) );
-			flags.expand_prefix( 2 );
-			assert( flags.front( ) == '{' );
+			flags = "{:";
+			flags.append( first, last );
 			return std::next( ctx.begin( ), sz - 1 );
 			//			return ctx.end( ) - 1;
 		}
diff --git a/include/daw/daw_format_tuple.h b/include/daw/daw_format_tuple.h
index 7c8e2b2..d4676c1 100644
--- a/include/daw/daw_format_tuple.h
+++ b/include/daw/daw_format_tuple.h
@@ -14,6 +14,7 @@
 
 #include <cassert>
 #include <format>
+#include <string>
 #include <string_view>
 
 namespace daw {
@@ -53,7 +54,7 @@ namespace daw {
 namespace std {
 	template<typename T, typename CharT>
 	struct formatter<daw::fmt_tuple<T, CharT>, CharT> {
-		daw::string_view flags = { };
+		std::string flags = { };
 
 		formatter( ) = default;
 
@@ -95,10 +96,8 @@ namespace std {
 				}
 				f.remove_prefix( );
 			}
-			flags =
-			  daw::string_view( first, last ); // static_cast<std::size_t>( sz ) );
-			flags.expand_prefix( 2 );
-			assert( flags.front( ) == '{' );
+			flags = "{:";
+			flags.append( first, last );
 			auto const sz = last - first;
 			return ctx.begin( ) + sz - 1;
 			//			return ctx.end( ) - 1;
-- 
2.43.0


From 7be1571177e2773ee9d23f26169b872f90e7edd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:09 +0000
Subject: [PATCH 247/248] fix: vprint accepts temporaries and vprintln can be
 used

---
 include/daw/daw_print.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_print.h b/include/daw/daw_print.h
index 2830d10..dc2ffe9 100644
--- a/include/daw/daw_print.h
+++ b/include/daw/daw_print.h
@@ -28,7 +28,7 @@ namespace daw {
 	DAW_ATTRIB_NOINLINE void vprint( FILE *fout, std::string_view fmt,
 	                                 Args &&...args ) {
 		auto const r =
-		  std::vformat( fmt, std::make_format_args( DAW_FWD( args )... ) );
+		  std::vformat( fmt, std::make_format_args( args... ) );
 		(void)std::fwrite( std::data( r ), 1, r.size( ), fout );
 	}
 
@@ -54,7 +54,7 @@ namespace daw {
 	DAW_ATTRIB_NOINLINE void vprintln( FILE *f, std::string fmt,
 	                                   Args &&...args ) {
 		fmt += '\n';
-		daw::print( f, fmt, DAW_FWD( args )... );
+		daw::vprint( f, fmt, DAW_FWD( args )... );
 	}
 
 	template<typename... Args>
@@ -67,7 +67,7 @@ namespace daw {
 	template<typename... Args>
 	DAW_ATTRIB_NOINLINE void vprintln( std::string fmt, Args &&...args ) {
 		fmt += '\n';
-		daw::print( stdout, fmt, DAW_FWD( args )... );
+		daw::vprint( stdout, fmt, DAW_FWD( args )... );
 	}
 
 	DAW_ATTRIB_INLINE void println( ) {
-- 
2.43.0


From 6af6a810db1b2b347316c03d37f74fd9fdbfa6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:09 +0000
Subject: [PATCH 248/248] fix: daw_throw_on_true_or_return with a value accepts
 any condition

---
 include/daw/daw_exception.h | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/include/daw/daw_exception.h b/include/daw/daw_exception.h
index 8e027b8..be2192d 100644
--- a/include/daw/daw_exception.h
+++ b/include/daw/daw_exception.h
@@ -392,17 +392,6 @@ namespace daw::exception {
 		return DAW_FWD( value );
 	}
 
-	template<typename ExceptionType = AssertException, typename ValueType,
-	         typename... Args, typename Bool>
-	constexpr ValueType &&daw_throw_on_true_or_return( ValueType &&value,
-	                                                   Bool &&test,
-	                                                   Args &&...args ) {
-		if( static_cast<bool>( test ) ) {
-			daw_throw<ExceptionType>( DAW_FWD( args )... );
-		}
-		return DAW_FWD( value );
-	}
-
 	template<typename ExceptionType = AssertException, typename ValueType,
 	         typename... Args>
 	constexpr ValueType daw_throw_on_true_or_return( ValueType &&value, bool test,
-- 
2.43.0

