------------------------------ MODULE PreRules ------------------------------
(* What every preprocessing operation may do to an example.  An example is a *)
(* function from paths (sequences of keys) to arrays [t: type, s: shape,     *)
(* v: values in row-major order, in units of 1/U].  Do(o, d) is the set of   *)
(* possible results: more than one for the random ones, none for an error.   *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt
U == 10000
RProd(s) == FoldSeq(LAMBDA a, b : a * b, 1, s)
Pixel(a, y, x, c) == a.v[(((y * a.s[2]) + x) * a.s[3]) + c + 1]       \* from 0
Image(t, h, w, c, f(_, _, _)) ==
  [t |-> t, s |-> <<h, w, c>>,
   v |-> [k \in 1 .. (h * w * c) |-> f((k - 1) \div (w * c), ((k - 1) \div c) % w, (k - 1) % c)]]
IsImage(a) == Len(a.s) = 3
Floats == {"float32"}
Trunc(t, x) == IF t \in Floats THEN x ELSE IF x >= 0 THEN (x \div U) * U ELSE -(((-x) \div U) * U)

Window(a, y0, x0, h, w) == LET P(y, x, c) == Pixel(a, y0 + y, x0 + x, c) IN Image(a.t, h, w, a.s[3], P)
Flip(a) == LET P(y, x, c) == Pixel(a, y, a.s[2] - 1 - x, c) IN Image(a.t, a.s[1], a.s[2], a.s[3], P)
Crop(a, h, w) == IF h > a.s[1] \/ w > a.s[2] THEN {}
                 ELSE {Window(a, (a.s[1] - h) \div 2, (a.s[2] - w) \div 2, h, w)}

(* Source of output i of `out` made from `in`: nearest, or two neighbours    *)
(* with weights in 1/(2 out).                                                *)
MinI(x, y) == IF x < y THEN x ELSE y
MaxI(x, y) == IF x > y THEN x ELSE y
Nearest(i, in, out) == MinI((((2 * i) + 1) * in) \div (2 * out), in - 1)
Centre(i, in, out) == MaxI(0, (((2 * i) + 1) * in) - out)            \* times 2 out
Low(i, in, out) == MinI(Centre(i, in, out) \div (2 * out), in - 1)
High(i, in, out) == MinI(Low(i, in, out) + 1, in - 1)
Frac(i, in, out) == IF Low(i, in, out) = in - 1 THEN 0 ELSE Centre(i, in, out) % (2 * out)
Resize(a, h, w, method) ==
  LET H == a.s[1]  W == a.s[2]
      N(y, x, c) == Pixel(a, Nearest(y, H, h), Nearest(x, W, w), c)
      Row(y, x, c) == LET f == Frac(x, W, w) IN
        (Pixel(a, y, Low(x, W, w), c) * ((2 * w) - f)) + (Pixel(a, y, High(x, W, w), c) * f)
      B(y, x, c) == LET f == Frac(y, H, h) IN
        ((Row(Low(y, H, h), x, c) * ((2 * h) - f)) + (Row(High(y, H, h), x, c) * f)) \div (4 * h * w)
      O(i, j, in, out) == MaxI(0, MinI((i + 1) * in, (j + 1) * out) - MaxI(i * in, j * out))
      Line(j, x, c) == FoldSet(LAMBDA k, acc : acc + (Pixel(a, j, k, c) * O(x, k, W, w)), 0, 0 .. W - 1)
      A(y, x, c) == FoldSet(LAMBDA j, acc : acc + (Line(j, x, c) * O(y, j, H, h)), 0, 0 .. H - 1) \div (H * W)
      R(y, x, c) == Trunc(a.t, CASE method = "nearest" -> N(y, x, c)
                                 [] method = "bilinear" -> B(y, x, c)
                                 [] method = "area" -> A(y, x, c))
  IN  Image(a.t, h, w, a.s[3], R)
(* n / d to the nearest integer; both for a tie.                             *)
Rounded(n, d) == {((2 * n) + d) \div (2 * d)} \cup (IF (2 * n) % (2 * d) = d THEN {n \div d} ELSE {})
Small(a, s) ==
  LET m == MinI(a.s[1], a.s[2])
      f == [a EXCEPT !.t = "float32"]
  IN { Resize(f, h, w, "area") : h \in Rounded(a.s[1] * s, m), w \in Rounded(a.s[2] * s, m) }
InceptionWindows(a, amin, amax) ==
  { <<y, x, h, w>> \in (0 .. a.s[1] - 1) \X (0 .. a.s[2] - 1) \X (1 .. a.s[1]) \X (1 .. a.s[2]) :
      /\ y + h <= a.s[1] /\ x + w <= a.s[2]
      /\ \/ h * w = a.s[1] * a.s[2]
         \/ /\ 100 * h * w >= amin * a.s[1] * a.s[2]
            /\ 100 * h * w <= amax * a.s[1] * a.s[2] }

At(s, k) == IF Len(s) = 1 THEN s[1] ELSE s[k]
Span(o, a, x, c) ==   \* x is one of the values of channel c (from 1)
  LET y == (o.lo * U) + (((x - (At(o.imin, c) * U)) * (o.hi - o.lo)) \div (At(o.imax, c) - At(o.imin, c)))
  IN  IF o.clip THEN MinI(MaxI(y, o.lo * U), o.hi * U) ELSE y
Rescale(o, a) ==
  LET C == IF a.s = <<>> THEN 1 ELSE a.s[Len(a.s)] IN
  IF Len(o.imin) # 1 /\ Len(o.imin) # C THEN {}
  ELSE {[t |-> "float32", s |-> a.s, v |-> [k \in DOMAIN a.v |-> Span(o, a, a.v[k], ((k - 1) % C) + 1)]]}

OneHot(o, a) ==
  LET Row(x) == [k \in 1 .. o.depth |-> IF x = (k - 1) * U THEN o.on * U ELSE o.off * U] IN
  CASE a.s = <<>> -> {[t |-> "float32", s |-> <<o.depth>>, v |-> Row(a.v[1])]}
    [] Len(a.s) = 1 /\ o.multi ->
         {[t |-> "float32", s |-> <<o.depth>>,
           v |-> [k \in 1 .. o.depth |-> IF \E i \in DOMAIN a.v : a.v[i] = (k - 1) * U THEN o.on * U ELSE o.off * U]]}
    [] Len(a.s) = 1 ->
         {[t |-> "float32", s |-> <<a.s[1], o.depth>>,
           v |-> [k \in 1 .. (a.s[1] * o.depth) |-> Row(a.v[((k - 1) \div o.depth) + 1])[((k - 1) % o.depth) + 1]]]}
    [] OTHER -> {}
Decode(o, a) ==
  IF a.t # "png" THEN {}
  ELSE IF o.channels = 3 /\ a.s[3] = 1
       THEN LET G(y, x, c) == Pixel(a, y, x, 0) IN {Image("uint8", a.s[1], a.s[2], 3, G)}
       ELSE {[a EXCEPT !.t = "uint8"]}

(* One value in, one value out.                                              *)
Value(o, a) ==
  CASE o.op = "central_crop" -> IF ~ IsImage(a) \/ a.t = "png" THEN {} ELSE Crop(a, o.h, o.w)
    [] o.op = "resize" -> IF ~ IsImage(a) \/ a.t = "png" THEN {} ELSE {Resize(a, o.h, o.w, o.method)}
    [] o.op = "resize_small" -> IF ~ IsImage(a) \/ a.t = "png" THEN {} ELSE Small(a, o.h)
    [] o.op = "flip_lr" -> IF ~ IsImage(a) \/ a.t = "png" THEN {} ELSE {a, Flip(a)}
    [] o.op = "inception_crop" -> IF ~ IsImage(a) \/ a.t = "png" THEN {} ELSE
         LET W == { Window(a, q[1], q[2], q[3], q[4]) : q \in InceptionWindows(a, o.amin, o.amax) } IN
         IF o.h = 0 THEN W ELSE { Resize(x, o.h, o.w, o.method) : x \in W }
    [] o.op = "reshape" -> IF a.t = "png" \/ RProd(o.shape) # Len(a.v) THEN {} ELSE {[a EXCEPT !.s = o.shape]}
    [] o.op = "value_range" -> IF a.t = "png" THEN {} ELSE Rescale(o, a)
    [] o.op = "onehot" -> IF a.t = "png" THEN {} ELSE OneHot(o, a)
    [] o.op = "decode" -> Decode(o, a)
Singles == {"central_crop", "resize", "resize_small", "flip_lr", "inception_crop", "reshape", "value_range", "onehot", "decode"}

Under(d, key) == {p \in DOMAIN d : p[1] = key}
Put(d, key, a) == [p \in (DOMAIN d \ Under(d, key)) \cup {<<key>>} |-> IF p = <<key>> THEN a ELSE d[p]]
Truth(a) == a.v[1] # 0
Bool(x) == [t |-> "bool", s |-> <<>>, v |-> <<IF x THEN U ELSE 0>>]
Joined(p) == <<FoldSeq(LAMBDA k, acc : acc \o "/" \o k, p[1], Tail(p))>>
Do(o, d) ==
  CASE o.op \in Singles ->
         IF <<o.i>> \notin DOMAIN d THEN {} ELSE { Put(d, o.o, a) : a \in Value(o, d[<<o.i>>]) }
    [] o.op = "copy" ->
         IF Under(d, o.i) = {} THEN {}
         ELSE LET new == { <<o.o>> \o Tail(p) : p \in Under(d, o.i) } IN
              {[p \in (DOMAIN d \ Under(d, o.o)) \cup new |-> IF p[1] = o.o THEN d[<<o.i>> \o Tail(p)] ELSE d[p]]}
    [] o.op = "keep" ->
         {[p \in {q \in DOMAIN d : q[1] \in {o.keys[k] : k \in DOMAIN o.keys} \cup {"__valid__"}} |-> d[p]]}
    [] o.op = "ignore_no_labels" ->
         IF <<o.i>> \notin DOMAIN d THEN {}
         ELSE {Put(d, o.o, Bool((<<o.o>> \in DOMAIN d => Truth(d[<<o.o>>])) /\ d[<<o.i>>].v # <<>>))}
    [] o.op = "flatten" ->
         {[p \in { Joined(q) : q \in DOMAIN d } |-> d[CHOOSE q \in DOMAIN d : Joined(q) = p]]}
RECURSIVE Run(_, _)
Run(prog, D) == IF prog = <<>> THEN D ELSE Run(Tail(prog), UNION { Do(Head(prog), d) : d \in D })
RECURSIVE MayFail(_, _)
MayFail(prog, D) == /\ prog # <<>>
                    /\ \/ \E d \in D : Do(Head(prog), d) = {}
                       \/ MayFail(Tail(prog), UNION { Do(Head(prog), d) : d \in D })
=============================================================================
