package main

var rejectSchemas = []lcase{
	{"undeclared in return", "func main(x,y){;;return x*z;;}", ""},
	{"undeclared in declaration", "func main(x,y){;;var k = z;;return x*y;;}", ""},
	{"undeclared as argument", "func main(x,y){;;return f(z)*y;;};;func f(a){;;return a*a;;}", ""},
	{"undeclared in function body", "func main(x,y){;;return f(x)*y;;};;func f(a){;;return a*q;;}", ""},
	{"undeclared in overload right", "func main(x,y){;;x = z;;return x*y;;}", ""},
	{"undeclared in overload left", "func main(x,y){;;z = x*x;;return x*y;;}", ""},
	{"undeclared in equal", "func main(x,y){;;equal(x*y,z);;return;;}", ""},
	{"undeclared in if", "func main(x,y){;;if z<3 {;;x = x*x;;};;return x*y;;}", ""},
	{"undeclared in loop", "func main(x,y){;;for (z<3;z=z+1){;;x = x*x;;};;return x*y;;}", ""},
	{"undeclared array", "func main(x,y){;;return x*a[0];;}", ""},
	{"undeclared array index", "func main(x,y){;;var a[] = {x,y};;return x*a[k];;}", ""},
	{"undeclared array overload", "func main(x,y){;;a[0] = x*x;;return x*y;;}", ""},
	{"undeclared function", "func main(x,y){;;return g(x)*y;;}", ""},
	{"undeclared function statement", "func main(x,y){;;g(x);;return x*y;;}", ""},
	{"local of another function", "func main(x,y){;;return f(x)*k;;};;func f(a){;;var k = a*a;;return k;;}", ""},
	{"argument of another function", "func main(x,y){;;return f(x)*a;;};;func f(a){;;return a*a;;}", ""},
	{"local of an if body", "func main(x,y){;;if 1<2 {;;var k = x*x;;};;return k*y;;}", ""},
	{"local of a loop body", "func main(x,y){;;var i=0;;for (i<2;i=i+1){;;var k = x*x;;};;return k*y;;}", ""},
	{"variable of main used in function", "func main(x,y){;;var k = x*y;;return f(x)*y;;};;func f(a){;;return a*k;;}", ""},
	{"local overloaded elsewhere", "func main(x,y){;;k = x;;return f(x)*y;;};;func f(a){;;var k = a*a;;return k;;}", ""},
	{"variable twice", "func main(x,y){;;var k = x*y;;var k = x*x;;return k*y;;}", ""},
	{"variable named like argument", "func main(x,y){;;var x = y*y;;return x*y;;}", ""},
	{"function twice", "func main(x,y){;;return f(x)*y;;};;func f(a){;;return a*a;;};;func f(b){;;return b+b;;}", ""},
	{"main twice", "func main(x,y){;;return x*y;;};;func main(x,y){;;return x*x;;}", ""},
	{"local function twice", "func main(x,y){;;var f = func(a){;;return a*a;;};;var f = func(b){;;return b*y;;};;return f(x)*y;;}", ""},
	{"variable named like local function", "func main(x,y){;;var f = func(a){;;return a*a;;};;var f = x*y;;return f*y;;}", ""},
	{"function named like variable", "func main(x,y){;;var f = x*y;;var f = func(a){;;return a*a;;};;return f(x)*y;;}", ""},
	{"array twice", "func main(x,y){;;var a[] = {x,y};;var a[] = {y,x};;return a[0]*y;;}", ""},
	{"array named like argument", "func main(x,y){;;var x[] = {y,y};;return x*y;;}", ""},
	{"argument twice", "func main(x,y){;;return f(x,y)*y;;};;func f(a,a){;;return a*a;;}", ""},
	{"main argument twice", "func main(x,x){;;return x*x;;}", ""},
	{"array argument twice", "func main(x[2],x[2]){;;return x[0]*x[1];;}", ""},
	{"global twice", "var k = 3;;var k = 5;;func main(x,y){;;return k*x*y;;}", ""},
	{"global function like variable", "var f = 3;;func main(x,y){;;return f(x)*y;;};;func f(a){;;return a*a;;}", ""},
	{"public twice", "func main(x,y,a[2]){;;public{;;x,x;;};;var k = x*y;;return (k*a[1])*y;;};;", ""},
	{"public twice apart", "func main(x,y,a[2]){;;public{;;x,y,x;;};;var k = x*y;;return (k*a[1])*y;;};;", ""},
	{"public element twice", "func main(x,y,a[2]){;;public{;;a[1],a[1];;};;var k = x*y;;return (k*a[1])*y;;};;", ""},
	{"public element twice by index", "func main(x,y,a[2]){;;public{;;a[1],a[0+1];;};;var k = x*y;;return (k*a[1])*y;;};;", ""},
	{"public element twice apart", "func main(x,y,a[2]){;;public{;;a[1],x,a[0],a[1];;};;var k = x*y;;return (k*a[1])*y;;};;", ""},
	{"public expression", "func main(x,y,a[2]){;;public{;;x*y;;};;var k = x*y;;return (k*a[1])*y;;};;", ""},
	{"public sum", "func main(x,y,a[2]){;;public{;;x+y;;};;var k = x*y;;return (k*a[1])*y;;};;", ""},
	{"public number", "func main(x,y,a[2]){;;public{;;3;;};;var k = x*y;;return (k*a[1])*y;;};;", ""},
	{"public unknown", "func main(x,y,a[2]){;;public{;;z;;};;var k = x*y;;return (k*a[1])*y;;};;", ""},
	{"public unknown among", "func main(x,y,a[2]){;;public{;;x,z,y;;};;var k = x*y;;return (k*a[1])*y;;};;", ""},
	{"public unknown last", "func main(x,y,a[2]){;;public{;;x,y,z;;};;var k = x*y;;return (k*a[1])*y;;};;", ""},
	{"public local", "func main(x,y,a[2]){;;public{;;k;;};;var k = x*y;;return (k*a[1])*y;;};;", ""},
	{"public local among", "func main(x,y,a[2]){;;public{;;k,x;;};;var k = x*y;;return (k*a[1])*y;;};;", ""},
	{"public array", "func main(x,y,a[2]){;;public{;;a;;};;var k = x*y;;return (k*a[1])*y;;};;", ""},
	{"public index outside", "func main(x,y,a[2]){;;public{;;a[2];;};;var k = x*y;;return (k*a[1])*y;;};;", ""},
	{"public index dynamic", "func main(x,y,a[2]){;;public{;;a[x];;};;var k = x*y;;return (k*a[1])*y;;};;", ""},
	{"public index of value", "func main(x,y,a[2]){;;public{;;x[0];;};;var k = x*y;;return (k*a[1])*y;;};;", ""},
	{"public index too many", "func main(x,y,a[2]){;;public{;;a[0][1];;};;var k = x*y;;return (k*a[1])*y;;};;", ""},
	{"public index negative", "func main(x,y,a[2]){;;public{;;a[0-1];;};;var k = x*y;;return (k*a[1])*y;;};;", ""},
	{"public function call", "func main(x,y,a[2]){;;public{;;f(x);;};;var k = x*y;;return (k*a[1])*y;;};;", ""},
	{"public function", "func main(x,y,a[2]){;;public{;;main;;};;var k = x*y;;return (k*a[1])*y;;};;", ""},
	{"public one", "func main(x,y,a[2]){;;public{;;1;;};;var k = x*y;;return (k*a[1])*y;;};;", ""},
	{"public missing comma", "func main(x,y,a[2]){;;public{;;x y;;};;var k = x*y;;return (k*a[1])*y;;};;", ""},
	{"public assignment", "func main(x,y,a[2]){;;public{;;x = y;;};;var k = x*y;;return (k*a[1])*y;;};;", ""},
	{"public argument of another", "func main(x,y,a[2]){;;public{;;b;;};;var k = x*y;;return (k*a[1])*y;;};;", ""},
	{"public missing bracket", "func main(x,y){;;public x,y;;};;return x*y;;}", ""},
	{"public missing end", "func main(x,y){;;public{;;x,y;;return x*y;;}", ""},
	{"public outside main", "public{;;x;;};;func main(x,y){;;return x*y;;}", ""},
	{"public in function", "func main(x,y){;;return f(x)*y;;};;func f(a){;;public{;;a;;};;return a*a;;}", ""},
	{"public in if", "func main(x,y){;;if 1<2 {;;public{;;x;;};;};;return x*y;;}", ""},
	{"public in loop", "func main(x,y){;;var i=0;;for (i<2;i=i+1){;;public{;;x;;};;};;return x*y;;}", ""},
	{"public two blocks", "func main(x,y){;;public{;;x;;};;public{;;x;;};;return x*y;;}", ""},
	{"too many arguments", "func main(x,y){;;return f(x,y)*y;;};;func f(a){;;return a*a;;}", ""},
	{"too many arguments for none", "func main(x,y){;;return f(x)*y;;};;func f(){;;return 3;;}", ""},
	{"too few arguments used as value", "func main(x,y){;;return f(x)*y;;};;func f(a,b){;;return a*b;;}", ""},
	{"no argument used as value", "func main(x,y){;;return f()*y;;};;func f(a){;;return a*a;;}", ""},
	{"too few arguments in sum", "func main(x,y){;;return (f(x)+y)*y;;};;func f(a,b){;;return a*b;;}", ""},
	{"function without call", "func main(x,y){;;return f*y;;};;func f(a){;;return a*a;;}", ""},
	{"call of a number", "var k = 3;;func main(x,y){;;return k(x)*y;;}", ""},
	{"call of an input", "func main(x,y){;;return x(y)*y;;}", ""},
	{"equal one", "func main(x,y){;;equal(x);;return x*y;;}", ""},
	{"equal three", "func main(x,y){;;equal(x,y,x);;return x*y;;}", ""},
	{"equal none", "func main(x,y){;;equal();;return x*y;;}", ""},
	{"addGateConstraint one", "func main(x,y){;;return addGateConstraint(x)*y;;}", ""},
	{"addGateConstraint three", "func main(x,y){;;return addGateConstraint(x,y,x)*y;;}", ""},
	{"scalarBaseMultiply two", "func main(x,y){;;return scalarBaseMultiply(x,y);;}", ""},
	{"scalarBaseMultiply none", "func main(x,y){;;return scalarBaseMultiply();;}", ""},
	{"split two", "func main(x,y){;;SPLIT(x,y);;return x*y;;}", ""},
	{"split none", "func main(x,y){;;SPLIT();;return x*y;;}", ""},
	{"split sum", "func main(x,y){;;SPLIT(x+y);;return x*y;;}", ""},
	{"split number", "func main(x,y){;;SPLIT(3);;return x*y;;}", ""},
	{"split multiple", "func main(x,y){;;SPLIT(3*x);;return x*y;;}", ""},
	{"split variable of multiple", "func main(x,y){;;var k = x+x;;SPLIT(k);;return x*y;;}", ""},
	{"split number variable", "func main(x,y){;;var k = 3;;SPLIT(k);;return x*y;;}", ""},
	{"bit outside", "func main(x,y){;;SPLIT(x);;return x[254]*y;;}", ""},
	{"bit without split", "func main(x,y){;;return x[3]*y;;}", ""},
	{"bit of another", "func main(x,y){;;SPLIT(x);;return y[3]*x;;}", ""},
	{"if on input", "func main(x,y){;;if x<3 {;;x = x*x;;};;return x*y;;}", ""},
	{"if on input right", "func main(x,y){;;if 3<x {;;x = x*x;;};;return x*y;;}", ""},
	{"if equal input", "func main(x,y){;;if x==3 {;;x = x*x;;};;return x*y;;}", ""},
	{"if equal same input", "func main(x,y){;;if x==x {;;x = x*x;;};;return x*y;;}", ""},
	{"if on product", "func main(x,y){;;var k = x*y;;if k==3 {;;x = x*x;;};;return x*y;;}", ""},
	{"if on sum", "func main(x,y){;;if (x+3)==3 {;;x = x*x;;};;return x*y;;}", ""},
	{"if on sum 2", "func main(x,y){;;if (3+x)==3 {;;x = x*x;;};;return x*y;;}", ""},
	{"else if on input", "func main(x,y){;;if 3<2 {;;x = x*x;;} else if y>2 {;;x = x*y;;} else {;;x = x*(x+1);;};;return x*y;;}", ""},
	{"loop on input", "func main(x,y){;;for (x<3;x=x+1){;;y = y*y;;};;return x*y;;}", ""},
	{"loop bound input", "func main(x,y){;;var i = 0;;for (i<x;i=i+1){;;y = y*y;;};;return x*y;;}", ""},
	{"index input", "func main(x,y){;;var a[] = {x,y};;return a[x]*y;;}", ""},
	{"index product", "func main(x,y){;;var a[] = {x,y};;var k = x*y;;return a[k]*y;;}", ""},
	{"index sum", "func main(x,y){;;var a[] = {x,y};;return a[x+1]*y;;}", ""},
	{"index sum 2", "func main(x,y){;;var a[] = {x,y};;return a[1+x]*y;;}", ""},
	{"index overload input", "func main(x,y){;;var a[] = {x,y};;a[y] = x*x;;return a[0]*y;;}", ""},
	{"if condition without comparison", "func main(x,y){;;if 3 {;;x = x*x;;};;return x*y;;}", ""},
	{"if condition input only", "func main(x,y){;;if x {;;x = x*x;;};;return x*y;;}", ""},
	{"if condition arithmetic", "func main(x,y){;;if 3+5 {;;x = x*x;;};;return x*y;;}", ""},
	{"if without condition", "func main(x,y){;;if {;;x = x*x;;};;return x*y;;}", ""},
	{"loop condition arithmetic", "func main(x,y){;;var i = 0;;for (i+3;i=i+1){;;x = x*x;;};;return x*y;;}", ""},
	{"loop condition number", "func main(x,y){;;var i = 0;;for (3;i=i+1){;;x = x*x;;};;return x*y;;}", ""},
	{"loop no condition", "func main(x,y){;;var i = 0;;for (;i=i+1){;;x = x*x;;};;return x*y;;}", ""},
	{"loop no step", "func main(x,y){;;var i = 0;;for (i<3){;;x = x*x;;};;return x*y;;}", ""},
	{"loop empty step", "func main(x,y){;;var i = 0;;for (i<3;){;;x = x*x;;};;return x*y;;}", ""},
	{"loop step no assignment", "func main(x,y){;;var i = 0;;for (i<3;i+1){;;x = x*x;;};;return x*y;;}", ""},
	{"loop without bracket", "func main(x,y){;;var i = 0;;for i<3;i=i+1 {;;x = x*x;;};;return x*y;;}", ""},
	{"loop without body", "func main(x,y){;;var i = 0;;for (i<3;i=i+1);;x = x*x;;return x*y;;}", ""},
	{"loop unclosed head", "func main(x,y){;;var i = 0;;for (i<3;i=i+1 {;;x = x*x;;};;return x*y;;}", ""},
	{"index outside", "func main(x,y){;;var a[] = {x,y};;return a[2]*y;;}", ""},
	{"index far outside", "func main(x,y){;;var a[] = {x,y};;return a[200]*y;;}", ""},
	{"index negative", "func main(x,y){;;var a[] = {x,y};;return a[0-1]*y;;}", ""},
	{"overload outside", "func main(x,y){;;var a[] = {x,y};;a[2] = x*x;;return a[0]*y;;}", ""},
	{"argument array outside", "func main(a[2],y){;;return a[2]*y;;}", ""},
	{"argument array 2d outside", "func main(a[2][3],y){;;return a[2][1]*y;;}", ""},
	{"argument array 2d swapped", "func main(a[2][3],y){;;return a[1][3]*y;;}", ""},
	{"argument array one index", "func main(a[2][3],y){;;return a[1]*y;;}", ""},
	{"argument array size zero", "func main(a[0],y){;;return y*y;;}", ""},
	{"argument array size variable", "var k = 2;;func main(a[k],y){;;return a[0]*y;;}", ""},
	{"argument array size missing", "func main(a[],y){;;return a[0]*y;;}", ""},
	{"array as value", "func main(x,y){;;var a[] = {x,y};;return a*y;;}", ""},
	{"array as argument value", "func main(a[2],y){;;return a*y;;}", ""},
	{"array unclosed", "func main(x,y){;;var a[] = {x,y;;return a[0]*y;;}", ""},
	{"index unclosed", "func main(x,y){;;var a[] = {x,y};;return a[0*y;;}", ""},
	{"array index empty", "func main(x,y){;;var a[] = {x,y};;return a[]*y;;}", ""},
	{"array number", "func main(x,y){;;var a[] = 3;;return x*y;;}", ""},
	{"array rest", "func main(x,y){;;var a[] = {x,y} + 3;;return a[0]*y;;}", ""},
	{"var without value", "func main(x,y){;;var k;;return x*y;;}", ""},
	{"var without value 2", "func main(x,y){;;var k =;;return x*y;;}", ""},
	{"var without name", "func main(x,y){;;var = 3;;return x*y;;}", ""},
	{"var number name", "func main(x,y){;;var 3 = x;;return x*y;;}", ""},
	{"var no assign", "func main(x,y){;;var k 3;;return x*y;;}", ""},
	{"var comparison", "func main(x,y){;;var k == 3;;return x*y;;}", ""},
	{"var alone", "func main(x,y){;;var;;return x*y;;}", ""},
	{"two values", "func main(x,y){;;var k = x y;;return k*y;;}", ""},
	{"trailing operator", "func main(x,y){;;var k = x+;;return k*y;;}", ""},
	{"leading operator", "func main(x,y){;;var k = +x;;return k*y;;}", ""},
	{"leading star", "func main(x,y){;;var k = *x;;return k*y;;}", ""},
	{"double operator", "func main(x,y){;;var k = x+*y;;return k*y;;}", ""},
	{"double star", "func main(x,y){;;return x**y;;}", ""},
	{"empty bracket", "func main(x,y){;;return ()*y;;}", ""},
	{"empty bracket 2", "func main(x,y){;;var k = ();;return k*y;;}", ""},
	{"value in brackets twice", "func main(x,y){;;return (x)(y);;}", ""},
	{"missing comma", "func main(x,y){;;return f(x y)*y;;};;func f(a){;;return a*a;;}", ""},
	{"empty first argument", "func main(x,y){;;return f(,x)*y;;};;func f(a){;;return a*a;;}", ""},
	{"string of words", "func main(x,y){;;hello world;;return x*y;;}", ""},
	{"expression statement", "func main(x,y){;;x*y;;return x*y;;}", ""},
	{"name statement", "func main(x,y){;;x;;return x*y;;}", ""},
	{"number statement", "func main(x,y){;;3;;return x*y;;}", ""},
	{"overload without value", "func main(x,y){;;x =;;return x*y;;}", ""},
	{"overload number", "func main(x,y){;;3 = x;;return x*y;;}", ""},
	{"overload function call", "func main(x,y){;;f(x) = y;;return x*y;;};;func f(a){;;return a*a;;}", ""},
	{"overload expression", "func main(x,y){;;x+y = 3;;return x*y;;}", ""},
	{"double assign", "func main(x,y){;;x = y = 3;;return x*y;;}", ""},
	{"unknown character", "func main(x,y){;;return x ? y;;}", ""},
	{"unknown character 2", "func main(x,y){;;return x*y$;;}", ""},
	{"semicolon", "func main(x,y){;;return x*y;;;};;", ""},
	{"else without if", "func main(x,y){;;else {;;x = x*x;;};;return x*y;;}", ""},
	{"else if without else", "func main(x,y){;;if 1<2 {;;x = x*x;;} else if 2<3 {;;x = x*y;;};;return x*y;;}", ""},
	{"two elses", "func main(x,y){;;if 1<2 {;;x = x*x;;} else {;;x = x*y;;} else {;;x = x*(y+1);;};;return x*y;;}", ""},
	{"else if after else", "func main(x,y){;;if 1<2 {;;x = x*x;;} else {;;x = x*y;;} else if 2<3 {;;x = x*(y+1);;};;return x*y;;}", ""},
	{"if without body", "func main(x,y){;;if 1<2;;x = x*x;;return x*y;;}", ""},
	{"else with condition", "func main(x,y){;;if 1<2 {;;x = x*x;;} else 2<3 {;;x = x*y;;};;return x*y;;}", ""},
	{"code after return", "func main(x,y){;;return x*y;;x = x*x;;}", ""},
	{"two returns", "func main(x,y){;;return x*y;;return x*x;;}", ""},
	{"statement after return same line", "func main(x,y){;;return x*y var k = 3;;}", ""},
	{"two statements one line", "func main(x,y){;;x = x*x y = y*y;;return x*y;;}", ""},
	{"return number star", "func main(x,y){;;return *;;}", ""},
	{"return comma", "func main(x,y){;;return x,y;;}", ""},
	{"no main", "func f(x,y){;;return x*y;;}", ""},
	{"empty", "", ""},
	{"only variable", "var k = 3", ""},
	{"function without name", "func (x){;;return x*x;;};;func main(x,y){;;return x*y;;}", ""},
	{"function without brackets", "func main x,y {;;return x*y;;}", ""},
	{"function without body", "func main(x,y);;return x*y", ""},
	{"function argument number", "func main(x,3){;;return x*x;;}", ""},
	{"function argument expression", "func main(x+y){;;return 3*x;;}", ""},
	{"function argument call", "func main(f(x)){;;return 3*x;;}", ""},
	{"function unclosed", "func main(x,y){;;return x*y", ""},
	{"function unclosed before", "func f(a){;;return a*a;;func main(x,y){;;return x*y;;}", ""},
	{"function closed twice", "func main(x,y){;;return x*y;;};;}", ""},
	{"statement outside", "func main(x,y){;;return x*y;;};;x = 3", ""},
	{"return outside", "return 3;;func main(x,y){;;return x*y;;}", ""},
	{"if outside", "if 1<2 {;;};;func main(x,y){;;return x*y;;}", ""},
	{"call outside", "equal(3,5);;func main(x,y){;;return x*y;;}", ""},
	{"import nothing", "import;;func main(x,y){;;return x*y;;}", ""},
	{"keyword as name", "func main(if,y){;;return y*y;;}", ""},
	{"keyword as variable", "func main(x,y){;;var func = 3;;return x*y;;}", ""},
	{"unary minus", "func main(x,y){;;return -x*y;;}", ""},
	{"compare as value", "func main(x,y){;;return x<y;;}", ""},
	{"compare in product", "func main(x,y){;;return (x<y)*x;;}", ""},
	{"compare equal as value", "func main(x,y){;;return (x==y)*x;;}", ""},
	{"bit operator", "func main(x,y){;;return x>>y;;}", ""},
	{"bit and", "func main(x,y){;;return (x&y)*x;;}", ""},
	{"boolean operator", "func main(x,y){;;return (x&&y)*x;;}", ""},
	{"boolean or", "func main(x,y){;;return (x||y)*x;;}", ""},
	{"xor", "func main(x,y){;;return (x^y)*x;;}", ""},
	{"AND call", "func main(x,y){;;return AND(x,y)*x;;}", ""},
	{"AND call one", "func main(x,y){;;return AND(x)*x;;}", ""},
	{"OR call", "func main(x,y){;;return OR(x,y)*x;;}", ""},
	{"NOT call", "func main(x,y){;;return NOT(x)*x;;}", ""},
	{"equal as value", "func main(x,y){;;return equal(x,y)*x;;}", ""},
	{"split as value", "func main(x,y){;;return SPLIT(x)*y;;}", ""},
	{"function without value in product", "func main(x,y){;;return f(x)*y;;};;func f(a){;;equal(a,3);;}", ""},
	{"function without value in declaration", "func main(x,y){;;var k = f(x);;return k*y;;};;func f(a){;;equal(a,3);;}", ""},
	{"function without value in argument", "func main(x,y){;;return g(f(x))*y;;};;func g(a){;;return a*a;;};;func f(a){;;equal(a,3);;}", ""},
	{"function without value in equal", "func main(x,y){;;equal(f(x),y);;return x*y;;};;func f(a){;;equal(a,3);;}", ""},
	{"function passed to equal", "func main(x,y){;;equal(f,y);;return x*y;;};;func f(a){;;return a*a;;}", ""},
	{"function passed to scalarBaseMultiply", "func main(x,y){;;return scalarBaseMultiply(f);;};;func f(a){;;return a*a;;}", ""},
	{"partial in equal", "func main(x,y){;;equal(f(x),y);;return x*y;;};;func f(a,b){;;return a*b;;}", ""},
	{"function divided", "func main(x,y){;;return x/f;;};;func f(a){;;return a*a;;}", ""},
	{"function subtracted", "func main(x,y){;;return x-f;;};;func f(a){;;return a*a;;}", ""},
	{"if on function", "func main(x,y){;;if f<3 {;;x = x*x;;};;return x*y;;};;func f(a){;;return a*a;;}", ""},
	{"index function", "func main(x,y){;;var a[] = {x,y};;return a[f]*y;;};;func f(a){;;return a*a;;}", ""},
	{"divide by zero number", "func main(x,y){;;return x/0;;}", ""},
	{"else condition number", "func main(x,y){;;if 1<2 {;;x = x*x;;} else 3 {;;x = x*y;;};;return x*y;;}", ""},
	{"else assignment", "func main(x,y){;;if 1<2 {;;x = x*x;;} else y = 3 {;;x = x*y;;};;return x*y;;}", ""},
	{"else after else if condition", "func main(x,y){;;if 1<2 {;;x = x*x;;} else if 2<3 {;;x = x*y;;} else 3<4 {;;x = x*(y+1);;};;return x*y;;}", ""},
	{"else brackets", "func main(x,y){;;if 1<2 {;;x = x*x;;} else () {;;x = x*y;;};;return x*y;;}", ""},
	{"global overload", "var k = 3;;k = 5;;func main(x,y){;;return (x*k)*y;;}", ""},
	{"loop outside", "var k = 0;;for (k<3;k=k+1){;;var l = k;;};;func main(x,y){;;return (x*k)*y;;}", ""},
	{"function call outside", "f(3);;func main(x,y){;;return f(x)*y;;};;func f(a){;;return a*a;;}", ""},
	{"split outside", "var k = 3;;SPLIT(k);;func main(x,y){;;return x*y;;}", ""},
	{"overload outside after", "func main(x,y){;;return x*y;;};;var k = 3;;k = 5;;", ""},
	{"if else outside", "var k = 3;;if k<2 {;;var l = 3;;} else {;;var l = 4;;};;func main(x,y){;;return x*y;;}", ""},
	{"statement outside between", "func main(x,y){;;return f(x)*y;;};;var k = 3;;k = 4;;func f(a){;;return a*k;;}", ""},
	{"return between", "func main(x,y){;;return f(x)*y;;};;return 3;;func f(a){;;return a*a;;}", ""},
	{"function added", "func main(x,y){;;return x+f;;};;func f(a){;;return a*a;;}", ""},
	{"function on the left", "func main(x,y){;;return f+x;;};;func f(a){;;return a*a;;}", ""},
	{"function subtracted left", "func main(x,y){;;return f-x;;};;func f(a){;;return a*a;;}", ""},
	{"function divisor number", "func main(x,y){;;return f/3;;};;func f(a){;;return a*a;;}", ""},
	{"function factor number", "func main(x,y){;;return 3*f;;};;func f(a){;;return a*a;;}", ""},
	{"function factor number right", "func main(x,y){;;return f*3;;};;func f(a){;;return a*a;;}", ""},
	{"function passed to addGateConstraint", "func main(x,y){;;return addGateConstraint(f,x)*y;;};;func f(a){;;return a*a;;}", ""},
	{"function passed to addGateConstraint right", "func main(x,y){;;return addGateConstraint(x,f)*y;;};;func f(a){;;return a*a;;}", ""},
	{"function passed to equal right", "func main(x,y){;;equal(y,f);;return x*y;;};;func f(a){;;return a*a;;}", ""},
	{"function passed to split", "func main(x,y){;;SPLIT(f);;return x*y;;};;func f(a){;;return a*a;;}", ""},
	{"partial in addition of numbers", "func main(x,y){;;return (f(3)+4)*y;;};;func f(a,b){;;return a*b;;}", ""},
	{"partial in condition", "func main(x,y){;;if f(3)<4 {;;return x*x;;};;return x*y;;};;func f(a,b){;;return a*b;;}", ""},
	{"partial as index", "func main(x,y){;;var a[] = {x,y};;return a[f(0)];;};;func f(a,b){;;return a*b;;}", ""},
	{"local function as value", "func main(x,y){;;var g = func(a){;;return a*a;;};;return (g+x)*y;;}", ""},
	{"passed function as value", "func main(x,y){;;return h(f)*y;;};;func h(g){;;return g+3;;};;func f(a){;;return a*a;;}", ""},
	{"passed function as factor", "func main(x,y){;;return h(f)*y;;};;func h(g){;;return g*3;;};;func f(a){;;return a*a;;}", ""},
	{"value called", "func main(x,y){;;return h(x)*y;;};;func h(g){;;return g(3);;}", ""},
	{"no value from branch", "func main(x,y){;;return (f(x)+y)*y;;};;func f(a){;;if 1<2 {;;equal(a,3);;} else {;;return a;;};;}", ""},
	{"no value from loop", "func main(x,y){;;return (f(x)+y)*y;;};;func f(a){;;var i = 0;;for (i<2;i=i+1){;;equal(a,i);;};;}", ""},
	{"no value in array", "func main(x,y){;;var a[] = {f(x),y};;return (a[0]+a[1])*y;;};;func f(a){;;equal(a,3);;}", ""},
	{"no value overload", "func main(x,y){;;x = f(y);;return (x+3)*y;;};;func f(a){;;equal(a,3);;}", ""},
	{"equal in sum", "func main(x,y){;;return (equal(x,y)+x)*y;;}", ""},
	{"equal in equal", "func main(x,y){;;equal(equal(x,y),x);;return x*y;;}", ""},
	{"split in sum", "func main(x,y){;;return (SPLIT(x)+x)*y;;}", ""},
	{"equal as exponent", "func main(x,y){;;return scalarBaseMultiply(equal(x,y));;}", ""},
	{"divide by computed zero", "func main(x,y){;;return x/(3-3);;}", ""},
	{"divide by zero variable", "func main(x,y){;;var k = 0;;return x/k;;}", ""},
	{"divide by cancelled", "func main(x,y){;;return x/(y-y);;}", ""},
	{"divide number by zero", "func main(x,y){;;return (3/0)*y;;}", ""},
	{"divide by zero argument", "func main(x,y){;;return f(x,0)*y;;};;func f(a,b){;;return a/b;;}", ""},
	{"use before declaration", "func main(x,y){;;x = k;;var k = 3;;return x*k;;}", ""},
	{"overload before declaration", "func main(x,y){;;k = 5;;var k = 3;;return x*k;;}", ""},
	{"global before declaration", "var k = l;;var l = 3;;func main(x,y){;;return x*k;;}", ""},
	{"use of function name local", "func main(x,y){;;return g(x)*y;;};;func f(a){;;var g = func(b){;;return b*b;;};;return g(a);;}", ""},
	{"else variable outside", "func main(x,y){;;if 1<2 {;;x = x*x;;} else {;;var k = 3;;};;return x*k;;}", ""},
	{"nested if variable outside", "func main(x,y){;;if 1<2 {;;if 2<3 {;;var k = x*x;;};;x = k*y;;};;return x*y;;}", ""},
	{"loop variable of callee", "func main(x,y){;;return (f(x)*i)*y;;};;func f(a){;;var i = 0;;for (i<2;i=i+1){;;a = a*a;;};;return a;;}", ""},
	{"argument element unknown", "func main(a[2],y){;;return (a[0]*a[1])*a[1][0];;}", ""},
	{"array element without index", "func main(a[2][2],y){;;return a[0]*y;;}", ""},
	{"function argument array whole", "func main(x,y){;;var a[] = {x,y};;return f(a)*y;;};;func f(b){;;return b*b;;}", ""},
	{"function header array call", "func main(x,y){;;return f(x)*y;;};;func f(b[2]){;;return b[0]*b[2];;}", ""},
	{"function header array missing", "func main(x,y){;;return f(x)*y;;};;func f(b[2]){;;return b[0]*b[1];;}", ""},
	{"header call unused", "func main(f(x),y){;;return y*y;;}", ""},
	{"header sum unused", "func main(x+y,z){;;return z*z;;}", ""},
	{"header element of element", "func main(a[2][y],y){;;return y*y;;}", ""},
	{"header comparison unused", "func main(x<y,z){;;return z*z;;}", ""},
	{"function header call unused", "func main(x,y){;;return g(x,y)*y;;};;func g(f(a),b){;;return b*b;;}", ""},
	{"two calls one line", "func main(x,y){;;equal(x,y) equal(y,x);;return x*y;;}", ""},
	{"call and overload one line", "func main(x,y){;;equal(x,y) x = 3;;return x*y;;}", ""},
	{"call and return one line", "func main(x,y){;;equal(x,y) return x*y;;}", ""},
	{"split and call one line", "func main(x,y){;;SPLIT(x) equal(x,y);;return x*y;;}", ""},
	{"call continued", "func main(x,y){;;equal(x,y)*3;;return x*y;;}", ""},
	{"user call continued", "func main(x,y){;;f(x)+3;;return x*y;;};;func f(a){;;equal(a,3);;return a;;}", ""},
	{"loop word before bracket", "func main(x,y){;;var i = 0;;for i (i<2;i=i+1){;;x = x*x;;};;return x*y;;}", ""},
	{"loop square bracket", "func main(x,y){;;var i = 0;;for [i<2;i=i+1]{;;x = x*x;;};;return x*y;;}", ""},
	{"loop swing bracket", "func main(x,y){;;var i = 0;;for {i<2;i=i+1}{;;x = x*x;;};;return x*y;;}", ""},
	{"loop step number", "func main(x,y){;;var i = 0;;for (i<2;3=i+1){;;x = x*x;;};;return x*y;;}", ""},
	{"loop step sum", "func main(x,y){;;var i = 0;;for (i<2;i+1=i){;;x = x*x;;};;return x*y;;}", ""},
	{"loop step comparison", "func main(x,y){;;var i = 0;;for (i<2;i==1){;;x = x*x;;};;return x*y;;}", ""},
	{"loop step undeclared", "func main(x,y){;;var i = 0;;for (i<2;j=i+1){;;x = x*x;;};;return x*y;;}", ""},
	{"loop three parts", "func main(x,y){;;for (var i = 0;i<2;i=i+1){;;x = x*x;;};;return x*y;;}", ""},
	{"loop comma", "func main(x,y){;;var i = 0;;for (i<2,i=i+1){;;x = x*x;;};;return x*y;;}", ""},
	{"array mixed rest", "func main(x,y){;;var a[] = {x,y};;a[0] = 3 y;;return a[0]*y;;}", ""},
	{"array size given", "func main(x,y){;;var a[2] = {x,y};;return a[0]*y;;}", ""},
	{"array bracket swapped", "func main(x,y){;;var a][ = {x,y};;return a[0]*y;;}", ""},
	{"array no braces", "func main(x,y){;;var a[] = x,y;;return a[0]*y;;}", ""},
	{"array comparison", "func main(x,y){;;var a[] == {x,y};;return a[0]*y;;}", ""},
	{"brackets swapped", "func main(x,y){;;return )x*y(;;}", ""},
	{"brackets crossed", "func main(x,y){;;return (x*[y)];;}", ""},
	{"brackets crossed call", "func main(x,y){;;var a[] = {x,y};;return f(a[0)];;};;func f(a){;;return a*a;;}", ""},
	{"wrong closing kind", "func main(x,y){;;return (x*y];;}", ""},
	{"function body round", "func main(x,y)(;;return x*y;;)", ""},
	{"if body round", "func main(x,y){;;if 1<2 (;;x = x*x;;);;return x*y;;}", ""},
	{"if twice", "func main(x,y){;;if if 1<2 {;;x = x*x;;};;return x*y;;}", ""},
	{"else else", "func main(x,y){;;if 1<2 {;;x = x*x;;} else else {;;x = x*y;;};;return x*y;;}", ""},
	{"assign to call", "func main(x,y){;;var k = x;;f(k) = 3;;return k*y;;};;func f(a){;;return a*a;;}", ""},
	{"assign in expression", "func main(x,y){;;var k = (x = 3);;return k*y;;}", ""},
	{"assign in condition", "func main(x,y){;;if x = 3 {;;x = x*x;;};;return x*y;;}", ""},
	{"assign in number condition", "func main(x,y){;;var k = 3;;if k = 3 {;;x = x*x;;};;return x*y;;}", ""},
	{"comparison chain", "func main(x,y){;;if 1<2<3 {;;x = x*x;;};;return x*y;;}", ""},
	{"boolean condition", "func main(x,y){;;if (1<2)&&(2<3) {;;x = x*x;;};;return x*y;;}", ""},
	{"or condition", "func main(x,y){;;if (1<2)||(2<3) {;;x = x*x;;};;return x*y;;}", ""},
	{"negated condition", "func main(x,y){;;if !(1<2) {;;x = x*x;;};;return x*y;;}", ""},
	{"condition call equal", "func main(x,y){;;if equal(x,y) {;;x = x*x;;};;return x*y;;}", ""},
	{"index with comparison", "func main(x,y){;;var a[] = {x,y};;return a[1<2]*y;;}", ""},
	{"number with letter", "func main(x,y){;;return 3x*y;;}", ""},
	{"decimal number", "func main(x,y){;;return 3.5*y;;}", ""},
	{"name with dot", "func main(x,y){;;return x.y*y;;}", ""},
	{"hash name", "func main(x,y){;;return x@y;;}", ""},
	{"import number", "import 3;;func main(x,y){;;return x*y;;}", ""},
	{"func keyword twice", "func func main(x,y){;;return x*y;;}", ""},
	{"return keyword twice", "func main(x,y){;;return return x*y;;}", ""},
	{"var keyword twice", "func main(x,y){;;var var k = 3;;return x*y;;}", ""},
	{"reserved main argument return", "func main(x,return){;;return x*x;;}", ""},
	{"negative literal index", "func main(x,y){;;var a[] = {x,y};;return a[-1]*y;;}", ""},
	{"huge index", "func main(x,y){;;var a[] = {x,y};;return a[99999999999999999999]*y;;}", ""},
	{"wrapped index", "func main(x,y){;;var a[] = {x,y};;return a[21888242871839275222246405745257275088548364400416034343698204186575808495617]*y;;}", ""},
	{"fraction index", "func main(x,y){;;var a[] = {x,y};;return a[1/2]*y;;}", ""},
}
