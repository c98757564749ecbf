// Library runtime for the symbolic executor: explicit instantiations of what libstdc++ keeps in its shared objects.
#include <string>
#include <vector>
#include <exception>
#include <new>
#include <functional>
template class std::basic_string<char>;
namespace rtx { struct Thrown : std::exception { const char* w; Thrown(const char*x):w(x){} const char* what() const noexcept override { return w; } }; }
namespace std {
exception::~exception() noexcept {} const char* exception::what() const noexcept { return "exception"; }
void __throw_bad_alloc(){ throw rtx::Thrown("bad_alloc"); }
void __throw_bad_array_new_length(){ throw rtx::Thrown("bad_array_new_length"); }
void __throw_length_error(const char*m){ throw rtx::Thrown("length_error"); }
void __throw_logic_error(const char*m){ throw rtx::Thrown("logic_error"); }
void __throw_out_of_range(const char*m){ throw rtx::Thrown("out_of_range"); }
void __throw_out_of_range_fmt(const char*m,...){ throw rtx::Thrown("out_of_range"); }
void __throw_invalid_argument(const char*m){ throw rtx::Thrown("invalid_argument"); }
void __throw_bad_function_call(){ throw rtx::Thrown("bad_function_call"); }
void __throw_system_error(int){ throw rtx::Thrown("system_error"); }
}
// red-black tree primitives (std::map / std::set), plain unbalanced variants with the same ordering contract
#include <map>
namespace std {
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { if(x->_M_right){ x=x->_M_right; while(x->_M_left) x=x->_M_left; } else { _Rb_tree_node_base* y=x->_M_parent; while(x==y->_M_right){ x=y; y=y->_M_parent; } if(x->_M_right!=y) x=y; } return x; }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { if(x->_M_color==_S_red&&x->_M_parent&&x->_M_parent->_M_parent==x) x=x->_M_right; else if(x->_M_left){ x=x->_M_left; while(x->_M_right) x=x->_M_right; } else { _Rb_tree_node_base* y=x->_M_parent; while(x==y->_M_left){ x=y; y=y->_M_parent; } x=y; } return x; }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left,_Rb_tree_node_base* x,_Rb_tree_node_base* p,_Rb_tree_node_base& h) throw() {
  x->_M_parent=p; x->_M_left=0; x->_M_right=0; x->_M_color=_S_black;
  if(left){ p->_M_left=x; if(p==&h){ h._M_parent=x; h._M_right=x; } else if(p==h._M_left) h._M_left=x; } else { p->_M_right=x; if(p==h._M_right) h._M_right=x; }
  h._M_color=_S_red; }
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z,_Rb_tree_node_base& h) throw() {
  _Rb_tree_node_base* nx=z; 
  auto rep=[&](_Rb_tree_node_base*o,_Rb_tree_node_base*n){ if(h._M_parent==o) h._M_parent=n; else if(o->_M_parent->_M_left==o) o->_M_parent->_M_left=n; else o->_M_parent->_M_right=n; if(n) n->_M_parent=o->_M_parent; };
  if(!z->_M_left) rep(z,z->_M_right); else if(!z->_M_right) rep(z,z->_M_left); else { _Rb_tree_node_base*y=z->_M_right; while(y->_M_left) y=y->_M_left; if(y->_M_parent!=z){ rep(y,y->_M_right); y->_M_right=z->_M_right; y->_M_right->_M_parent=y; } rep(z,y); y->_M_left=z->_M_left; y->_M_left->_M_parent=y; }
  if(!h._M_parent){ h._M_left=&h; h._M_right=&h; } else { _Rb_tree_node_base*l=h._M_parent; while(l->_M_left) l=l->_M_left; h._M_left=l; _Rb_tree_node_base*r=h._M_parent; while(r->_M_right) r=r->_M_right; h._M_right=r; }
  return nx; }
}
extern "C" int _Z_rt_dummy(){ return 0; }
