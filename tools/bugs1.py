PRE=r'''#include <bertini2/system/system.hpp>
#include <bertini2/system/start_systems.hpp>
#include <bertini2/function_tree/simplify.hpp>
#include <iostream>
using namespace bertini; using node::Variable; using node::Integer; using Nd=std::shared_ptr<node::Node>;
static int bad=0; static void same(std::complex<double> a,std::complex<double> b,const char*w){ if(!(std::abs(a-b)<=1e-9*(1+std::abs(b)))){ std::cout<<w<<": "<<a<<" expected "<<b<<"\n"; bad++; } }
static dbl D(mpfr_complex const& z){ return dbl(z); }
'''
AR="core/src/function_tree/operators/arithmetic.cpp"; SY="core/src/system/system.cpp"; SL="core/src/system/straight_line_program.cpp"
def bug(id,prop,needs,breaks,edits,demo): return dict(id=id,property=prop,needs=needs,breaks=breaks,edits=edits,demo=PRE+demo)
BUGS=[
bug("b01-mult-divfirst","C01","a product whose first factor is a divisor (appears when products are flattened), evaluated in multiple precision","the reciprocal of the first factor is lost in multiple precision",
 [(AR,"		operands_[0]->EvalInPlace<mpfr_complex>(temp_mp_, diff_variable);\n		evaluation_value = static_cast<mpfr_float>(1)/temp_mp_;","		operands_[0]->EvalInPlace<mpfr_complex>(evaluation_value, diff_variable);\n		temp_mp_ = static_cast<mpfr_float>(1)/evaluation_value;")],
 r'''int main(){ DefaultPrecision(30); auto x=Variable::Make("x"),y=Variable::Make("y"); Nd f=node::MultOperator::Make(Nd(x),false,Nd(y),true); x->set_current_value(mpfr_complex(4)); y->set_current_value(mpfr_complex(3)); f->Reset(); same(D(f->Eval<mpfr_complex>()),0.75,"y/x"); return bad; }'''),
bug("b02-power-derivative","C02","an integer power with a negative exponent below -1","derivative of negative integer powers has the wrong exponent",
 [(AR,"IntegerPowerOperator::Make(operand_, exponent_-1) );","IntegerPowerOperator::Make(operand_, exponent_ < -1 ? exponent_+1 : exponent_-1) );")],
 r'''int main(){ auto x=Variable::Make("x"); Nd f=pow(Nd(x),-2); auto g=f->Differentiate(x); x->set_current_value(dbl(2)); same(g->Eval<dbl>(),-0.25,"d x^-2"); return bad; }'''),
bug("b04-homogenize-deficit","C04","a sum whose terms differ in degree by an odd number of at least three","homogenization multiplies in too few powers of the homogenizing variable",
 [(AR,"			if (degree_deficiency==1)\n","			if (degree_deficiency%2==1)\n")],
 r'''int main(){ auto x=Variable::Make("x"),h=Variable::Make("h"); Nd f=pow(Nd(x),3)+Nd(Integer::Make(5)); VariableGroup g{x}; f->Homogenize(g,h); x->set_current_value(dbl(1)); h->set_current_value(dbl(2)); f->Reset(); same(f->Eval<dbl>(),41.0,"x^3+5h^3"); return bad; }'''),
bug("b05-flatten-division","C05","a quotient whose divisor is itself a quotient, simplified","x/(y/z) becomes x/y/z",
 [(AR,"				new_ops.push_back(!(converted->mult_or_div_[jj] ^ this->mult_or_div_[ii]));","				new_ops.push_back(converted->mult_or_div_[jj] && this->mult_or_div_[ii] ? true : jj==0 && !converted->mult_or_div_[jj] && !this->mult_or_div_[ii]);")],
 r'''int main(){ auto x=Variable::Make("x"),y=Variable::Make("y"),z=Variable::Make("z"); Nd f=Nd(x)/(Nd(y)/Nd(z)); x->set_current_value(dbl(6)); y->set_current_value(dbl(3)); z->set_current_value(dbl(5)); Simplify(f); f->Reset(); same(f->Eval<dbl>(),10.0,"x/(y/z)"); return bad; }'''),
bug("b06-slp-exponent","C06","a system with two functions using the same base raised to different integer powers, one of them negative","compiled programs reuse the exponent of the opposite sign",
 [(SL,"		if (this->locations_integers_.find(expo) == this->locations_integers_.end())\n		{\n			locations_integers_[expo] = slp_under_construction_.integers_.size();","		if (this->locations_integers_.find(expo) == this->locations_integers_.end() && this->locations_integers_.find(-expo) != this->locations_integers_.end())\n			locations_integers_[expo] = locations_integers_[-expo];\n		if (this->locations_integers_.find(expo) == this->locations_integers_.end())\n		{\n			locations_integers_[expo] = slp_under_construction_.integers_.size();")],
 r'''int main(){ auto x=Variable::Make("x"); System s; s.AddVariableGroup(VariableGroup{x}); s.AddFunction(pow(Nd(x),2)); s.AddFunction(pow(Nd(x),-2)); s.SetEvalMethod(EvalMethod::SLP); Vec<dbl> v(1); v(0)=2; auto f=s.Eval(v); same(f(0),4.0,"x^2"); same(f(1),0.25,"x^-2"); return bad; }'''),
bug("b07-addfunctions-stale","C07","several functions added at once to a system that was evaluated before","values and derivatives stay those of the old functions",
 [(SY,"		functions_.insert( functions_.end(), v.begin(), v.end() );\n		is_differentiated_ = false;","		functions_.insert( functions_.end(), v.begin(), v.end() );")],
 r'''int main(){ auto x=Variable::Make("x"); System s; s.AddVariableGroup(VariableGroup{x}); s.AddFunction(Nd(x)*x); Vec<dbl> v(1); v(0)=3; s.Eval(v); s.Jacobian(v); std::vector<std::shared_ptr<node::Function>> fs={node::Function::Make(Nd(x)+Nd(Integer::Make(1)),"g")}; s.AddFunctions(fs); auto f=s.Eval(v); same(f(1),4.0,"value"); auto J=s.Jacobian(v); same(J(1,0),1.0,"jacobian"); return bad; }'''),
bug("b09-copy-structure","C07","copying variable structure into a system that already had evaluated with other variables","the copied ordering of the other system is taken even when it was not yet constructed",
 [(SY,"		variable_ordering_ = other.variable_ordering_; \n		have_ordering_ = other.have_ordering_;","		if (other.have_ordering_)\n			variable_ordering_ = other.variable_ordering_; \n		have_ordering_ = true;")],
 r'''int main(){ auto x=Variable::Make("x"),y=Variable::Make("y"); System s; s.AddVariableGroup(VariableGroup{x}); System o; o.CopyVariableStructure(s); o.AddFunction(Nd(x)*x); bool ok=false; try{ Vec<dbl> v(1); v(0)=3; auto f=o.Eval(v); ok=std::abs(f(0)-9.0)<1e-9; auto J=o.Jacobian(v); ok=ok&&J.cols()==1&&std::abs(J(0,0)-6.0)<1e-9; }catch(std::exception&e){ std::cout<<e.what()<<"\n"; } return ok?0:1; }'''),