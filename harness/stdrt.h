// Out of line pieces of libstdc++ (node linking of std::list, the red-black
// tree behind std::map/std::set, bucket counts of the unordered containers),
// in source form so that they become part of the encoded program.  The tree
// is not rebalanced: balance has no observable effect.
#pragma once
#include <cstddef>
#include <list>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>

namespace std {
	namespace __detail {
		void _List_node_base::_M_hook( _List_node_base *const p ) noexcept {
			_M_next = p;
			_M_prev = p->_M_prev;
			p->_M_prev->_M_next = this;
			p->_M_prev = this;
		}
		void _List_node_base::_M_unhook( ) noexcept {
			_M_next->_M_prev = _M_prev;
			_M_prev->_M_next = _M_next;
		}
		void _List_node_base::_M_transfer( _List_node_base *const f, _List_node_base *const l ) noexcept {
			if( this != l ) {
				l->_M_prev->_M_next = this;
				f->_M_prev->_M_next = l;
				this->_M_prev->_M_next = f;
				_List_node_base *const t = this->_M_prev;
				this->_M_prev = l->_M_prev;
				l->_M_prev = f->_M_prev;
				f->_M_prev = t;
			}
		}
		void _List_node_base::_M_reverse( ) noexcept {
			_List_node_base *t = this;
			do {
				_List_node_base *n = t->_M_next;
				t->_M_next = t->_M_prev;
				t->_M_prev = n;
				t = n;
			} while( t != this );
		}
		size_t _Prime_rehash_policy::_M_next_bkt( size_t n ) const {
			size_t const r = n <= 13 ? 13 : n <= 59 ? 59 : n <= 541 ? 541 : n | 1;
			_M_next_resize = r;
			return r;
		}
		pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash( size_t bkt, size_t elt, size_t ins ) const {
			if( elt + ins <= _M_next_resize and bkt != 1 )
				return { false, 0 };
			if( elt + ins <= bkt and bkt != 1 ) {
				_M_next_resize = bkt;
				return { false, 0 };
			}
			size_t const w = elt + ins + 1 > bkt * 2 ? elt + ins + 1 : bkt * 2;
			return { true, _M_next_bkt( w ) };
		}
	} // namespace __detail

	_Rb_tree_node_base *_Rb_tree_increment( _Rb_tree_node_base *x ) throw( ) {
		if( x->_M_right ) {
			x = x->_M_right;
			while( x->_M_left )
				x = x->_M_left;
			return x;
		}
		_Rb_tree_node_base *y = x->_M_parent;
		while( x == y->_M_right ) {
			x = y;
			y = y->_M_parent;
		}
		if( x->_M_right != y )
			x = y;
		return x;
	}
	_Rb_tree_node_base const *_Rb_tree_increment( _Rb_tree_node_base const *x ) throw( ) {
		return _Rb_tree_increment( const_cast<_Rb_tree_node_base *>( x ) );
	}
	_Rb_tree_node_base *_Rb_tree_decrement( _Rb_tree_node_base *x ) throw( ) {
		if( x->_M_color == _S_red and x->_M_parent->_M_parent == x )
			return x->_M_right;
		if( x->_M_left ) {
			_Rb_tree_node_base *y = x->_M_left;
			while( y->_M_right )
				y = y->_M_right;
			return y;
		}
		_Rb_tree_node_base *y = x->_M_parent;
		while( x == y->_M_left ) {
			x = y;
			y = y->_M_parent;
		}
		return y;
	}
	_Rb_tree_node_base const *_Rb_tree_decrement( _Rb_tree_node_base const *x ) throw( ) {
		return _Rb_tree_decrement( const_cast<_Rb_tree_node_base *>( x ) );
	}
	void _Rb_tree_insert_and_rebalance( bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h ) throw( ) {
		x->_M_parent = p;
		x->_M_left = nullptr;
		x->_M_right = nullptr;
		x->_M_color = _S_black;
		if( left ) {
			p->_M_left = x;
			if( p == &h ) {
				h._M_parent = x;
				h._M_right = x;
			} else if( p == h._M_left )
				h._M_left = x;
		} else {
			p->_M_right = x;
			if( p == h._M_right )
				h._M_right = x;
		}
	}
	_Rb_tree_node_base *_Rb_tree_rebalance_for_erase( _Rb_tree_node_base *const z, _Rb_tree_node_base &h ) throw( ) {
		if( h._M_left == z )
			h._M_left = z->_M_right or z->_M_parent != &h ? _Rb_tree_increment( z ) : z->_M_parent;
		if( h._M_right == z )
			h._M_right = z->_M_left or z->_M_parent != &h ? _Rb_tree_decrement( z ) : z->_M_parent;
		auto const link = [&]( _Rb_tree_node_base *o, _Rb_tree_node_base *n ) {
			if( h._M_parent == o )
				h._M_parent = n;
			else if( o->_M_parent->_M_left == o )
				o->_M_parent->_M_left = n;
			else
				o->_M_parent->_M_right = n;
			if( n )
				n->_M_parent = o->_M_parent;
		};
		if( not z->_M_left )
			link( z, z->_M_right );
		else if( not z->_M_right )
			link( z, z->_M_left );
		else {
			_Rb_tree_node_base *y = z->_M_right;
			while( y->_M_left )
				y = y->_M_left;
			if( y->_M_parent != z ) {
				link( y, y->_M_right );
				y->_M_right = z->_M_right;
				y->_M_right->_M_parent = y;
			}
			link( z, y );
			y->_M_left = z->_M_left;
			y->_M_left->_M_parent = y;
		}
		return z;
	}
} // namespace std
