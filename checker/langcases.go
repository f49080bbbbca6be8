package main

// Program schemas of D10: ;; is a line break, the numerals listed stand for any non-zero number.
var langSchemas = []lcase{
	{"readme-main", "func main(x){;;#comment;;var a = func(i){;;if i == 0 {;;return;;};;return x*a(i-1);;};;var b = 7;;var c = 123 * b;;return mul(1/c,a(array[3]*2));;};;;;var xx = 4;;var array[] = {1,4,7,xx};;;;func mul(a,b){;;return a*b;;}", ""},
	{"readme-public", "func main(a,b[2],c[3][2],d){;;public{;;a, b[1],c[0][0];;};;equal(((a*b[0])*(c[2][1]*d)), (b[1]+c[1][0]));;return;;}", ""},
	{"readme-constants", "func main(x){;;#constants;;var purposeOfLive = 42*17;;#variable;;var xSquared = x*x;;return purposeOfLive*xSquared;;}", ""},
	{"readme-fargs", "func main(x){;;var multiplyWith5 = func(a){return a*5};;return executeFkt(multiplyWith5,x) # we execute it;;};;func executeFkt(fkt,input){;;#fkt must be a function;;return fkt(input);;}", "3 5 7"},
	{"readme-preload", "func main(x){;;var multiply = func(a,b){return a*b};;var multiplyBy5 = multiply(5);;return multiplyBy5(x) #is now the same as multiply(5,x);;}", "3 5 7"},
	{"readme-loop", "func main(x){;;var i = 0       #declare the running variable outside;;for ( i <= 4 ; i = i+1){  #we dont support ++;;x = x*x;;};;return x*3;;}", ""},
	{"readme-ifelse", "func main(x,y){;;var i = 3;;if i<2{;;return x*x;;}else if i==4{;;return x*y;;}else if i>=3{;;return y*y;;}else{;;return y;;};;}", ""},
	{"tp-trace", "func main( x  ,  z ) {;;return do(z) + add(x,x);;};;;;func do(x){;;var e = x * 5;;var b = e * 6;;var c = b * 7;;var F = c * 1;;var d = c * F;;var ll = d * mul(d,e);;return ll;;};;;;func add(x ,k){;;var z = k * x;;return do(x) + mul(x,z);;};;;;func mul(a,b){;;return a * b;;}", "5 6 7"},
	{"tp-fib", "func main(x){;;return (x*fubunaci(5));;};;func fubunaci(a){;;if a==0{;;return 1;;};;if a==1{;;return 1;;};;return addGateConstraint(fubunaci(a-1),fubunaci(a-2));;}", ""},
	{"tp-higher", "func main(x,y){;;var multiply = func(b,h){;;return b*h*6;;};;var execute = func(j,m){;;return j(m);;};;#var kk = x*7;;var k = execute(multiply,x);;iterate(2,4,1,k);;return k(x);;};;func iterate(fromX,toX,stepSize, call){;;if fromX==toX{;;return;;};;call(fromX);;iterate(fromX+stepSize,toX,stepSize,call);;}", "6"},
	{"tp-fibarray", "func main(x){;;public{x};;return (3*fubunaci(6,x));;};;;;func fubunaci(a,v){;;var dyn[] = {v,v};;var i = 2;;for (i<a;i=i+1){;;var n = addGateConstraint(dyn[0],dyn[1]);;dyn[0] = dyn[1];;dyn[1] = n;;};;return dyn[1];;}", "3"},
	{"tp-fibsum", "func main(x){;;return (x*fubunaci(6,x));;};;func fubunaci(a,v){;;var dyn[] = {v,v};;var i = 2;;for (i<a;i=i+1){;;var n = dyn[0]+dyn[1];;dyn[0] = dyn[1];;dyn[1] = n;;};;return dyn[1];;}", ""},
	{"tp-mul", "func main(x,y,z){;;return mul(add(mul(x,y),z)-132,z);;};;;;func mul(a,b){;;return a*b;;};;func add(a,b){;;return a+b;;}", "132"},
	{"tp-fibglobal", "func main(x){;;return (1*fubunaci(6))*(x*x);;};;var dyn[] = {1,1,0,0,0,0};;func fubunaci(a){;;var i = 2;;for (i<a;i=i+1){;;dyn[i] = dyn[i-1]+dyn[i-2];;};;return dyn[a-1];;}", ""},
	{"tp-apply", "func main(x){;;var a = func(c,b){;;return (c*c)*b;;};;var c[] = {x, 2*x,a };;return a(applyFunction(c[0],a),x);;};;;;func applyFunction(a,fkt){;;return fkt(a,a);;}", ""},
	{"tp-key", "func main(publicKey, privateKey){;;var pub = scalarBaseMultiply(privateKey);;equal(pub,publicKey);;equal(publicKey,pub);;return;;}", ""},
	{"tp-nested", "func main(x,z,w) {;;if ( (4*7) == 28){;;x=x*x;;}else{;;x=z*z;;};;var arra[]={x,1,2,3};;var mul = func(a,b){;;return x*b*7;;};;var a =1;;var c = w;;;;for( a<3;a=a+1){;;var b = 3;;for( b<4;b=b+2){;;c = mul(c,c);;};;};;;;var k = mul(z,z);;var l = k*k;;return l*(k*arra[2])*x*x;;};;;;func mul(a,b){;;return a*b;;}", ""},
	{"tp-chains", "func main( x  ,  z ) {;;if ( 1==2){;;x=x*x;;}else if 3==3{;;x=z*z;;}else{;;x=x*z;;};;if ( 1==2){;;x=x*x;;}else if 3==3{;;x=x*x;;}else{;;x=x*z;;};;return x*5;;}", "5"},
	{"tp-loops", "func main( x  ,  z ) {;;var a =1;;var c = 45345146;;for( a<3;a=a+1){;;var b = 3;;c = foo(x,c)*x;;for( b<4;b=b+2){;;c = foo(x,c)*x;;};;x = (x*x)+1;;};;return c*(x/z);;};;;;func foo(x,y){;;return x*y;;}", "45345146"},
	{"nested-if", "func main(x,y){;;var i = 2;;if i==2 {;;if i<1 {;;x = x*y;;} else {;;x = (x*x);;};;y = (y*7);;} else {;;x = 5;;};;return x*y;;}", "7"},
	{"nested-if-return", "func main(x,y){;;func f(i){;;if i>1 {;;if i>2 {;;return x*x;;};;return x*y;;};;return y;;};;return f(3)*(f(2)*f(1));;}", ""},
	{"return-in-for", "func main(x,y){;;func f(a){;;var i = 0;;for (i<5;i=i+1){;;if i==2 {;;return a;;};;a = a*a;;};;return x;;};;return f(y)*x;;}", ""},
	{"return-in-for2", "func main(x,y){;;return f(y)*x;;};;func f(a){;;var i = 0;;for (i<5;i=i+1){;;return a;;};;return 7;;}", "7"},
	{"if-then-rest", "func main(x,y){;;if 1==1 {;;x = x*y;;};;x = x*5;;if 1==2 {;;x = x*y;;} else {;;y = y*x;;};;return x*y;;}", "3 5 7"},
	{"split-bits", "func main(x,y){;;SPLIT(x);;var t = x[0]*y;;equal(x[3],y);;return (x[0]+x[253])*t;;}", ""},
	{"split-product", "func main(x,y){;;var p = x*y;;SPLIT(p);;return x*7;;}", "7"},
	{"split-array", "func main(x[2],y){;;SPLIT(x[1]);;return (x[1][0]*y);;}", ""},
	{"shadow", "func main(x,y){;;var a = x*y;;var f = func(x){;;var a = x*7;;return a*x;;};;var g = func(a){;;a = a*a;;return f(a);;};;return (g(x)*a);;}", "3 5 7"},
	{"global-var", "var k = 5;;func main(x){;;var y = k*x;;return y*(x+k);;}", "3 5 7"},
	{"closure-write", "func main(x,y){;;var s = x;;var add = func(v){;;s = s*v;;return s;;};;var p = add(y);;var q = add(x);;return p*(q*s);;}", ""},
	{"reuse", "func main(x,y){;;var a = x*y;;var b = y*x;;var c = (3*x)*y;;var d = (x*5)*(y*7);;equal(a,b);;return ((a+b)*(c+d))*(x*y);;}", "3 5 7"},
	{"minus", "func main(x,y,z){;;return (x-y)*(y-(z-(3-x)));;}", "3 5 7"},
	{"cancel", "func main(x,y){;;var z = x-x;;var w = (x+y)-y;;return (w+z)*(y+(x-x));;}", "3 5 7"},
	{"const", "func main(x){;;return (3*5)-((7/5)+(3-7));;}", "3 5 7"},
	{"const-return", "func main(x){;;equal(x,3);;return 5;;}", "3 5 7"},
	{"scaled-return", "func main(x,y){;;return (x*3)*(5+(7*2));;}", "3 5 7"},
	{"sum-return", "func main(x,y){;;return (x*3)+(5-y);;}", "3 5 7"},
	{"unscaled-return", "func main(x,y){;;return y;;}", "3 5 7"},
	{"div", "func main(x,y){;;return ((3*x)+y)/((5*x)-(7*y));;}", "3 5 7"},
	{"div2", "func main(x,y){;;var q = (x*y)/(x+3);;equal((q*(x+3)), (x*y));;return (5/q);;}", "3 5 7"},
	{"div-const", "func main(x,y){;;return ((x+y)/3)*(x/5);;}", "3 5 7"},
	{"mult-chain", "func main(x,y,z){;;return x*y*z*3*x;;}", "3 5 7"},
	{"sum-chain", "func main(x,y,z){;;return (x+y+z+3+x)*(x*y);;}", "3 5 7"},
	{"equal-sums", "func main(x,y){;;equal((3*x)+(y*y), (5-(7*y)));;equal(x,3);;equal(5,y);;return;;}", "3 5 7"},
	{"exp-sum", "func main(x,y){;;var a = scalarBaseMultiply((3*x)+(y-5));;var b = scalarBaseMultiply(7);;equal((a*b),y);;return b*x;;}", "3 5 7"},
	{"exp-nested", "func main(x){;;return scalarBaseMultiply(scalarBaseMultiply(x)*3)*x;;}", "3 5 7"},
	{"addgate", "func main(x,y){;;var a = addGateConstraint(3*x,y+5);;var b = addGateConstraint(a,a);;return b*(a*7);;}", "3 5 7"},
	{"matrix", "func main(m[2][2],v[2]){;;public{v[0],m[1][1]};;var r[] = {0,0};;var i = 0;;for (i<2;i=i+1){;;var j = 0;;for (j<2;j=j+1){;;r[i] = r[i]+(m[i][j]*v[j]);;};;};;return r[0]*r[1];;}", ""},
	{"index-expr", "func main(v[4]){;;var i = 1;;return v[i+2]*(v[i*2]+v[i-1]);;}", ""},
	{"array-of-arrays", "func main(x,y){;;var a[] = {x,y,x*y};;var b[] = {a[2],a[0],3};;b[1] = b[1]*b[0];;a[0] = b[1]+b[2];;return a[0]*b[1];;}", "3 5 7"},
	{"array-pass", "func main(v[2],w){;;return f(v[0],v[1],w);;};;func f(a,b,c){;;return (a*b)*(b+c);;}", ""},
	{"partial-two", "func main(x,y,z){;;var f = func(a,b,c){;;return (a*b)+c;;};;var g = f(x,y);;var h = f(y);;var k = h(z);;return g(5)*(k(x)*g(7));;}", "3 5 7"},
	{"return-function", "func main(x,y){;;var mk = func(a,b){;;return a*(b+3);;};;var p = pick(1,mk);;return p(y);;};;func pick(a,f){;;return f(a);;}", "3 5 7"},
	{"compose", "func main(x,y){;;return twice(sq,(x+y))*x;;};;func twice(f,v){;;return f(f(v));;};;func sq(a){;;return a*a;;}", ""},
	{"recursion", "func main(x,y){;;return pow(x,5)*y;;};;func pow(b,e){;;if e==0 {;;return 1;;};;return b*pow(b,e-1);;}", ""},
	{"recursion-acc", "func main(x,y){;;return sum(4,y)*x;;};;func sum(n,acc){;;if n<=0 {;;return acc;;};;return sum(n-1,acc+(x2(acc)*3));;};;func x2(v){;;return v*v;;}", ""},
	{"cmp-eq-1", "func main(x,y){;;var i = 1;;if i==2 {;;return x*x;;};;return x*y;;}", ""},
	{"cmp-eq-2", "func main(x,y){;;var i = 2;;if i==2 {;;return x*x;;};;return x*y;;}", ""},
	{"cmp-eq-3", "func main(x,y){;;var i = 3;;if i==2 {;;return x*x;;};;return x*y;;}", ""},
	{"cmp-ne-1", "func main(x,y){;;var i = 1;;if i!=2 {;;return x*x;;};;return x*y;;}", ""},
	{"cmp-ne-2", "func main(x,y){;;var i = 2;;if i!=2 {;;return x*x;;};;return x*y;;}", ""},
	{"cmp-ne-3", "func main(x,y){;;var i = 3;;if i!=2 {;;return x*x;;};;return x*y;;}", ""},
	{"cmp-lt-1", "func main(x,y){;;var i = 1;;if i<2 {;;return x*x;;};;return x*y;;}", ""},
	{"cmp-lt-2", "func main(x,y){;;var i = 2;;if i<2 {;;return x*x;;};;return x*y;;}", ""},
	{"cmp-lt-3", "func main(x,y){;;var i = 3;;if i<2 {;;return x*x;;};;return x*y;;}", ""},
	{"cmp-le-1", "func main(x,y){;;var i = 1;;if i<=2 {;;return x*x;;};;return x*y;;}", ""},
	{"cmp-le-2", "func main(x,y){;;var i = 2;;if i<=2 {;;return x*x;;};;return x*y;;}", ""},
	{"cmp-le-3", "func main(x,y){;;var i = 3;;if i<=2 {;;return x*x;;};;return x*y;;}", ""},
	{"cmp-gt-1", "func main(x,y){;;var i = 1;;if i>2 {;;return x*x;;};;return x*y;;}", ""},
	{"cmp-gt-2", "func main(x,y){;;var i = 2;;if i>2 {;;return x*x;;};;return x*y;;}", ""},
	{"cmp-gt-3", "func main(x,y){;;var i = 3;;if i>2 {;;return x*x;;};;return x*y;;}", ""},
	{"cmp-ge-1", "func main(x,y){;;var i = 1;;if i>=2 {;;return x*x;;};;return x*y;;}", ""},
	{"cmp-ge-2", "func main(x,y){;;var i = 2;;if i>=2 {;;return x*x;;};;return x*y;;}", ""},
	{"cmp-ge-3", "func main(x,y){;;var i = 3;;if i>=2 {;;return x*x;;};;return x*y;;}", ""},
	{"func-in-func", "func main(x,y){;;func f(a){;;func g(b){;;return b*(a+x);;};;return g(a*y);;};;return f(x)+(f(y)*3);;}", "3 5 7"},
	{"callback-closure", "func main(x,y){;;var acc = 1;;var step = func(i){;;acc = acc*(x+i);;};;run(0,3,step);;return acc*y;;};;func run(a,b,f){;;if a==b {;;return;;};;f(a);;run(a+1,b,f);;}", ""},
	{"loop-shadow", "func main(x,y){;;var i = 0;;var t = x;;for (i<3;i=i+1){;;var t = y*x;;y = t+i;;};;return t*y;;}", ""},
	{"loop-func", "func main(x,y){;;var i = 3;;for (i>0;i=i-1){;;var f = func(v){;;return v*(x+i);;};;y = f(y);;};;return y*x;;}", ""},
	{"loop-var-used", "func main(x,y){;;var i = 0;;for (i<3;i=i+1){;;x = x*(y+i);;};;return x*i;;}", ""},
	{"equal-in-loop", "func main(v[3],s){;;var i = 0;;for (i<3;i=i+1){;;equal((v[i]*(v[i]-1)),0);;};;equal((v[0]+v[1]+v[2]),s);;return;;}", ""},
	{"equal-twice", "func main(x,y){;;equal(x,y);;equal((x*y),y);;equal(x,y);;return;;}", ""},
	{"comments", "#first;;func main(x,y){ #after;;#before;;var a = x*y #here;;#between;;;;return a*3;;#end;;};;#last", "3 5 7"},
	{"blank", "func main(x,y){;;;;;;var a = x*y;;;;;;return a*3;;;;;;}", "3 5 7"},
	{"spaces", "func   main( x ,y )  {;;    var a=x*y;;  return    a*( 3 );;}", "3 5 7"},
	{"bracketed", "func main(x,y){;;return (((x)*((y))))*(((3)));;}", "3 5 7"},
	{"late-var", "func main(x,y){;;var a = x*y;;a = a+3;;var b = a;;a = a*a;;return (a*b);;}", "3 5 7"},
	{"overload-function", "func main(x,y){;;var f = func(a,b){;;return a*b;;};;f = f(x);;return f(y)*3;;}", "3 5 7"},
	{"swap", "func main(x,y){;;var t = x;;x = y;;y = t*5;;return (x*3)+(y*x);;}", "3 5 7"},
	{"unused-param", "func main(x,y){;;return f(x,y)*3;;};;func f(a,b){;;return a*a;;}", "3 5 7"},
	{"dead-code", "func main(x,y){;;var a = x*y;;var b = a*a;;return x*3;;}", "3 5 7"},
	{"public-order", "func main(a,b,c){;;public{;;c,;;a;;};;return (a*b)*c;;}", ""},
	{"no-return", "func main(x,y){;;equal((x*y),3);;}", "3 5 7"},
	{"same-name-wires", "func main(x,y){;;var a = (x*y)+3;;var b = (y*x)+3;;return (a*b)*(a+b);;}", "3 5 7"},
	{"neg-coef", "func main(x,y){;;var a = (0-x)*(0-y);;var b = (3-x)*(x-3);;return a*b;;}", "3 5 7"},
	{"zero-sum", "func main(x,y){;;var z = (x*y)-(y*x);;equal(z,0);;return z+(x*3);;}", "3 5 7"},
	{"zero-product", "func main(x,y){;;return ((x-x)*y)+(x*y);;}", "3 5 7"},
	{"two-functions-same-local", "func main(x,y){;;var t = x*y;;return f(t)*g(t);;};;func f(a){;;var t = a+3;;return t*t;;};;func g(a){;;var t = a+5;;return t*t;;}", "3 5 7"},
	{"subtracted-reuse", "func main(x,y){;;var s = x*3;;var a = (y-s)*(s+y);;var b = (x-s)*(s-y);;return a*(b+s);;}", "3 5 7"},
	{"subtracted-constant", "func main(x,y){;;var k = 5;;var a = (y-k)*(k+y);;var b = (x-(k-y))*(k*x);;return a*(b-k);;}", "3 5 7"},
	{"subtracted-sum", "func main(x,y){;;var s = (x*3)+(y*5);;var t = (7-s)*(y-s);;var u = (x+s)*(s-t);;equal(s-u,t);;equal(t,s);;return (u-t)*(t-u);;}", "3 5 7"},
	{"divided-reuse", "func main(x,y){;;var s = x*3;;var k = 5;;var a = (y/s)*(s+k);;var b = (x/k)*(s*k);;return a*(b+(k/s));;}", "3 5 7"},
	{"if-last", "func main(x,y){;;var t = f(x,y);;return t*y;;};;func f(a,b){;;b = a*b;;if 1==1 {;;return a*b;;};;}", "3 5 7"},
	{"if-last-skipped", "func main(x,y){;;var s = x;;var f = func(a){;;s = s*a;;if 1==2 {;;s = s*y;;};;};;f(y);;return s*x;;}", "3 5 7"},
	{"elseif-last", "func main(x,y){;;return g(2)*(g(3)*g(4));;};;func g(i){;;if i==2 {;;return 6;;} else if i==3 {;;return 5;;} else {;;return 7;;};;}", "6"},
	{"elseif-last-else", "func main(x,y){;;var s = x;;var g = func(i){;;if i==2 {;;s = s*y;;} else if i==3 {;;s = s*(y+5);;} else {;;s = s*7;;};;};;g(2);;g(3);;g(4);;return s*x;;}", "5 7"},
	{"for-if-last", "func main(x,y){;;var i = 0;;for (i<4;i=i+1){;;x = x*y;;if i==2 {;;x = x*x;;};;};;return x*y;;}", ""},
	{"times-zero", "func main(x,y){;;var a = (x*0)+y;;var b = (0*x)*y;;equal(a,(y+(0*x)));;return (a*y)+b;;}", ""},
	{"zero-operands", "func main(x,y){;;var z = 0;;var a = (x+z)*(y-z);;var b = (z-x)*(y*(z+3));;var c = z/(x+y);;return ((a*b)+(z*y))+(c*x);;}", "3"},
	{"loop-local", "func main(x,y){;;var i = 0;;for (i<3;i=i+1){;;var n = x;;n = n*y;;x = (n+n)*x;;};;return x*y;;}", ""},
	{"function-local-state", "func main(x,y){;;return f(x)*(f(y)*f(x));;};;func f(a){;;var n = 1;;var i = 0;;for (i<2;i=i+1){;;n = n*a;;};;n = n*3;;return n;;}", "3"},
	{"assign-function", "func main(x,y){;;var f = sq;;var i = 0;;for (i<2;i=i+1){;;x = f(x);;f = tw;;};;if 1==1 {;;f = sq;;};;return f(x)*y;;};;func sq(a){;;return a*a;;};;func tw(a){;;return (a*3)*(a+5);;}", "3 5"},
	{"negated-argument", "func main(x,y){;;var n = 0-x;;x = y-x;;y = 0-y;;return (f(0-x)*f(n))*(n*y);;};;func f(a){;;a = 0-a;;return (a*a)*(a-3);;}", "3"},
	{"negated-sum-argument", "func main(x,y){;;var n = x-(y+3);;return f(y-x)*f(n);;};;func f(a){;;a = 5-a;;return (a*a)*(a-7);;}", "3 5 7"},
	{"squares", "func main(x,y){;;equal(x*x,y*y);;return (x*x)*(y*y);;}", ""},
	{"double-addgate", "func main(x,y){;;var a = addGateConstraint(x,x);;var b = addGateConstraint((x+y)+3,(y-x)+5);;return (a*b)*(a+a);;}", "3 5 7"},
	{"double-terms", "func main(x,y){;;var s = (x+y)+((x+3)+(y+5));;var e = scalarBaseMultiply((x+y)+(x+7));;equal((s+s)+(3+e), ((e+x)+(x+5)));;return s*(s+(x+e));;}", "3 5 7"},
	{"return-then-equal", "func main(x,y){;;var i = 0;;for (i<4;i=i+1){;;if i==2 {;;equal(x,y);;return x*y;;};;x = x*y;;};;equal(x,3);;equal(y*y,x);;}", "3"},
	{"if-return-then-equal", "func main(x,y){;;if 1==1 {;;return x*y;;};;equal(y*y,x);;SPLIT(x);;}", "3"},
	{"three-dimensions", "func main(t[2][2][3],u[1][2]){;;public{t[1][0][2],u[0][1]};;var i = 0;;var s = 0;;for (i<3;i=i+1){;;s = s+(t[1][1][i]*t[0][1][i]);;};;return (s*t[1][0][2])*(u[0][1]+t[0][1][1]);;}", ""},
	{"many-functions", "var k = 3;;func main(x,y){;;var a = f(x,g);;var b = f(y,h);;return f(a*b,g);;};;func f(v,q){;;var w = q(v);;return q(w)+k;;};;func g(v){;;return h(v)*v;;};;func h(v){;;return (v*k)*(v+5);;}", "3 5"},
}
