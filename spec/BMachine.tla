------------------------------ MODULE BMachine ------------------------------
(***************************************************************************)
(* The abstract machine that gives B programs their meaning, including the *)
(* runtime library.  A value is                                            *)
(*   <<0, w>>             the 64-bit word w                                *)
(*   <<1, obj, off, ser>> the address of byte off of object obj            *)
(*   <<2, name>>          a function                                       *)
(*   <<3>>                some negative number (error code of the system)  *)
(*   <<4>>                undefined                                        *)
(*   <<6, obj, off, ser>> an address far outside its object, off a word     *)
(*   <<5, bytes>>         a word of which only some bytes are defined (the *)
(*                        others are -1), found in storage                 *)
(* The machine knows nothing of numeric addresses, so it can only predict  *)
(* programs that do not depend on them; where a program does, or where its *)
(* behaviour is undefined (division by zero, storage not initialized, an   *)
(* index out of bounds, ...), the machine stops with status "ub" and the   *)
(* program is not judged.                                                  *)
(*                                                                         *)
(* An object is a record: w (is it made of words, or of bytes?), c (its    *)
(* words or bytes), ser (a number no other object of the run ever has, so  *)
(* that addresses of dead objects are recognized).                         *)
(*                                                                         *)
(* The state of the machine is a record:                                   *)
(*   st     "run", "exit", "ub", "nofn" (call of a function that is        *)
(*          defined nowhere)                                               *)
(*   fn pc  current function and position in its code                      *)
(*   stk    operand stack of the current activation                        *)
(*   base   number of objects below the locals of the current activation   *)
(*   up     suspended activations, innermost last                          *)
(*   mem    objects: constants, globals, then locals of the activations    *)
(*   ser    last serial number used                                        *)
(*   ipos   number of bytes of the standard input consumed                 *)
(*   out    what was written: sequence of <<stream, bytes>>                *)
(*   code   exit status                                                    *)
(*   closed which of the standard streams 0, 1, 2 are closed               *)
(*   packs  where the pieces end in which the input arrives through a pipe *)
(*          (none: it is a file)                                           *)
(*   n      instructions executed                                          *)
(***************************************************************************)
EXTENDS BTranslate

Num(w)  == <<0, w>>
Undef   == <<4>>
SomeNeg == <<3>>
NumN(n) == Num(WFrom(n))
Zero    == Num(WZero)
One     == Num(WOne)
IsInt(v) == v[1] = 0
IsPtr(v) == v[1] = 1
IsFn(v)  == v[1] = 2
Known(v) == v[1] < 3

\* The bytes of a word that holds no address, and the word made of bytes
Bytewise(v) == v[1] \in {0, 4, 5}
BytesOf(v) ==
  CASE v[1] = 0 -> WBytes(v[2])
    [] v[1] = 4 -> <<-1, -1, -1, -1, -1, -1, -1, -1>>
    [] v[1] = 5 -> v[2]
OfBytes(b) == IF \A i \in 1..8 : b[i] >= 0 THEN Num(WOfBytes(b)) ELSE <<5, b>>

\* Is v false in a condition?  "ub" if that is not known
Truth(v) ==
  CASE v[1] = 0 -> IF WIsZero(v[2]) THEN "false" ELSE "true"
    [] v[1] \in 1..3 -> "true"
    [] OTHER -> "ub"

-----------------------------------------------------------------------------
(* Arithmetic *)

LOCAL IntOp(op, a, b) ==
  CASE op = "+" -> Num(WAdd(a, b))
    [] op = "-" -> Num(WSub(a, b))
    [] op = "*" -> Num(WMul(a, b))
    [] op = "/" -> IF WIsZero(b) \/ (a = WMin /\ b = WNeg(WOne)) THEN Undef
                   ELSE Num(WSDiv(a, b))
    [] op = "%" -> IF WIsZero(b) \/ (a = WMin /\ b = WNeg(WOne)) THEN Undef
                   ELSE Num(WSRem(a, b))
    [] op = "&" -> Num(WAnd(a, b))
    [] op = "|" -> Num(WOr(a, b))
    [] op \in {"<<", ">>"} ->
         IF WSmall(b) /\ WInt(b) \in 0..63
         THEN Num(IF op = "<<" THEN WShl(a, WInt(b)) ELSE WSar(a, WInt(b)))
         ELSE Undef
    [] op = "<"  -> Num(WBool(WLt(a, b)))
    [] op = "<=" -> Num(WBool(~WLt(b, a)))
    [] op = ">"  -> Num(WBool(WLt(b, a)))
    [] op = ">=" -> Num(WBool(~WLt(a, b)))
    [] op = "==" -> Num(WBool(a = b))
    [] op = "!=" -> Num(WBool(a # b))

\* An address, near or far, and its distance from its object as a word
IsAddr(v) == v[1] \in {1, 6}
LOCAL OffWord(p) == IF p[1] = 1 THEN WFrom(p[3]) ELSE p[3]

\* Move an address by w bytes.  Addresses are 64-bit words and wrap around, so
\* that one can leave its object and come back.
LOCAL Move(p, w, sign) ==
  LET off == OffWord(p)
      to == IF sign = 1 THEN WAdd(off, w) ELSE WSub(off, w)
  IN IF WSmall(to) THEN <<1, p[2], WInt(to), p[4]>> ELSE <<6, p[2], to, p[4]>>

\* Equal addresses belong to the same object, unless one of them has left it:
\* then only those that started from the same object compare
LOCAL PtrOp(op, a, b) ==
  LET same == a[2] = b[2] /\ a[4] = b[4]
      near == IsPtr(a) /\ IsPtr(b)
  IN CASE op \in {"==", "!="} /\ (near \/ same) -> Num(WBool((a = b) = (op = "==")))
       [] ~same -> Undef
       [] op = "-" -> Num(WSub(OffWord(a), OffWord(b)))
       [] ~near -> Undef
       [] op = "<"  -> Num(WBool(a[3] < b[3]))
       [] op = "<=" -> Num(WBool(a[3] <= b[3]))
       [] op = ">"  -> Num(WBool(a[3] > b[3]))
       [] op = ">=" -> Num(WBool(a[3] >= b[3]))
       [] OTHER -> Undef

BinOp(op, a, b) ==
  CASE IsInt(a) /\ IsInt(b) -> IntOp(op, a[2], b[2])
    [] IsAddr(a) /\ IsInt(b) /\ op = "+" -> Move(a, b[2], 1)
    [] IsAddr(a) /\ IsInt(b) /\ op = "-" -> Move(a, b[2], -1)
    [] IsInt(a) /\ IsAddr(b) /\ op = "+" -> Move(b, a[2], 1)
    [] IsAddr(a) /\ IsAddr(b) -> PtrOp(op, a, b)
    [] IsFn(a) /\ IsFn(b) /\ op \in {"==", "!="} -> Num(WBool((a = b) = (op = "==")))
    \* an address is never zero
    [] (IsPtr(a) \/ IsFn(a)) /\ b = Zero /\ op \in {"==", "!="} -> Num(WBool(op = "!="))
    [] (IsPtr(b) \/ IsFn(b)) /\ a = Zero /\ op \in {"==", "!="} -> Num(WBool(op = "!="))
    [] a = SomeNeg /\ b = Zero -> Num(WBool(op \in {"<", "<=", "!="}))
    [] OTHER -> Undef
\* (SomeNeg with zero and an operator that is no comparison: not predicted)
Binary(op, a, b) ==
  IF a = SomeNeg /\ op \notin {"<", "<=", ">", ">=", "==", "!="} THEN Undef
  ELSE BinOp(op, a, b)

-----------------------------------------------------------------------------
(* Storage *)

LOCAL Live(m, p) == IsPtr(p) /\ p[2] <= Len(m.mem) /\ m.mem[p[2]].ser = p[4]

\* Can the word at p be read or written as a cell of its object?
LOCAL CellAt(m, p) ==
  /\ Live(m, p)
  /\ m.mem[p[2]].w
  /\ p[3] >= 0
  /\ p[3] % 8 = 0
  /\ p[3] \div 8 < Len(m.mem[p[2]].c)

CanLoad(m, p) ==
  \/ CellAt(m, p)
  \/ Live(m, p) /\ ~m.mem[p[2]].w /\ p[3] >= 0 /\ p[3] + 8 <= Len(m.mem[p[2]].c)
Load(m, p) ==
  IF m.mem[p[2]].w THEN m.mem[p[2]].c[(p[3] \div 8) + 1]
  ELSE Num(WOfBytes(SubSeq(m.mem[p[2]].c, p[3] + 1, p[3] + 8)))

CanStore(m, p) == CellAt(m, p)
Store(m, p, v) == [m EXCEPT !.mem[p[2]].c[(p[3] \div 8) + 1] = v]

\* The byte at p, or -1 when it is not defined
ByteAt(m, p, i) ==
  IF ~Live(m, p) THEN -1
  ELSE LET o == m.mem[p[2]]
           k == p[3] + i
       IN IF k < 0 THEN -1
          ELSE IF o.w THEN
            IF k \div 8 >= Len(o.c) THEN -1
            ELSE LET v == o.c[(k \div 8) + 1] IN
                 IF IsInt(v) THEN WByte(v[2], k % 8)
                 ELSE IF v[1] = 5 THEN v[2][(k % 8) + 1] ELSE -1
          ELSE IF k < Len(o.c) THEN o.c[k + 1] ELSE -1

\* May byte p + i be written?  Constants may not; a word that holds an address
\* may not be changed in part.
CanSetByte(m, p, i) ==
  /\ Live(m, p)
  /\ m.mem[p[2]].w
  /\ p[3] + i >= 0
  /\ (p[3] + i) \div 8 < Len(m.mem[p[2]].c)
  /\ Bytewise(m.mem[p[2]].c[((p[3] + i) \div 8) + 1])
SetByte(m, p, i, b) ==
  LET k == p[3] + i IN
  [m EXCEPT !.mem[p[2]].c[(k \div 8) + 1] = OfBytes([BytesOf(@) EXCEPT ![(k % 8) + 1] = b])]

\* The bytes from p up to a NUL: <<defined?, bytes>>
RECURSIVE CStr(_, _, _, _)
CStr(m, p, i, acc) ==
  LET b == ByteAt(m, p, i) IN
  IF b = -1 THEN <<FALSE, acc>>
  ELSE IF b = 0 THEN <<TRUE, acc>>
  ELSE CStr(m, p, i + 1, Append(acc, b))

-----------------------------------------------------------------------------
(* Runtime library.  Of the files of the process only the standard ones    *)
(* are open: 0 for reading, 1 and 2 for writing, unless closed.            *)

Ub(m) == [m EXCEPT !.st = "ub"]

\* fout is object 1; it selects the stream: 1 standard output, 2 standard error
LOCAL Stream(m) ==
  LET v == m.mem[1].c[1] IN
  IF v = Zero THEN 1 ELSE IF v = One THEN 2 ELSE 0

\* Write bytes to the selected stream
LOCAL Emit(m, bytes) ==
  IF Stream(m) = 0 THEN Ub(m)
  ELSE IF bytes = <<>> \/ Stream(m) \in m.closed THEN m
  ELSE [m EXCEPT !.out = Append(@, <<Stream(m), bytes>>)]

\* The characters packed in a word: leading zero bytes are dropped, but one
\* byte is always there
WordChars(w) ==
  LET b == WBytes(w)
      first == IF \A i \in 1..8 : b[i] = 0 THEN 8
               ELSE CHOOSE i \in 1..8 : b[9 - i] # 0 /\ \A j \in 1..(i - 1) : b[9 - j] = 0
  IN TLCEval([i \in 1..(9 - first) |-> b[9 - (first + i - 1)]])

Decimal(w) == IF WNegative(w) THEN <<45>> \o WDigits(WNeg(w), 10) ELSE WDigits(w, 10)
SignedOctal(w) == IF WNegative(w) THEN <<45>> \o WDigits(WNeg(w), 8) ELSE WDigits(w, 8)

\* What printf writes: <<defined?, bytes>>.  i is the position in the format,
\* k the number of the next argument.
RECURSIVE Format(_, _, _, _, _, _)
Format(m, f, args, i, k, acc) ==
  LET c == ByteAt(m, f, i)
      d == ByteAt(m, f, i + 1)
      v == IF k <= Len(args) THEN args[k] ELSE Undef
  IN CASE c = -1 -> <<FALSE, acc>>
       [] c = 0 -> <<TRUE, acc>>
       [] c # 37 -> Format(m, f, args, i + 1, k, Append(acc, c))
       [] d = -1 -> <<FALSE, acc>>
       [] d \in {100, 111, 99} ->            \* %d %o %c
            IF ~IsInt(v) THEN <<FALSE, acc>>
            ELSE Format(m, f, args, i + 2, k + 1,
                   acc \o (CASE d = 100 -> Decimal(v[2])
                             [] d = 111 -> SignedOctal(v[2])
                             [] d = 99 -> WordChars(v[2])))
       [] d = 115 ->                         \* %s
            LET s == IF IsPtr(v) THEN CStr(m, v, 0, <<>>) ELSE <<FALSE, <<>>>> IN
            IF ~s[1] THEN <<FALSE, acc>>
            ELSE Format(m, f, args, i + 2, k + 1, acc \o s[2])
       [] d = 37 -> Format(m, f, args, i + 2, k, Append(acc, 37))
       [] OTHER -> Format(m, f, args, i + 1, k, Append(acc, 37))

\* Library functions yield <<machine, value>>
LOCAL Fail2(m) == <<Ub(m), Undef>>

LOCAL Arg(args, k) == IF k <= Len(args) THEN args[k] ELSE Undef

\* A transfer of count bytes is judged for sane counts only
LOCAL Count(v) == IF IsInt(v) /\ WSmall(v[2]) /\ WInt(v[2]) \in 0..100000
                  THEN WInt(v[2]) ELSE -1

LOCAL Nwrite(m, args) ==
  LET fd == Arg(args, 1)
      n == Count(Arg(args, 3))
      p == Arg(args, 2)
  IN IF ~IsInt(fd) \/ n = -1 \/ ~WSmall(fd[2]) THEN Fail2(m)
     ELSE IF WInt(fd[2]) \notin {1, 2} \ m.closed THEN <<m, SomeNeg>>
     ELSE IF n = 0 THEN <<m, Zero>>
     ELSE LET b == TLCEval([i \in 1..n |-> ByteAt(m, p, i - 1)]) IN
          IF \E i \in 1..n : b[i] = -1 THEN Fail2(m)
          ELSE <<[m EXCEPT !.out = Append(@, <<WInt(fd[2]), b>>)], NumN(n)>>

LOCAL MinN(a, b) == IF a < b THEN a ELSE b

\* The input there is before the program has taken all of it: nread gives what
\* is there and does not wait for more
LOCAL Arrived(m, input) ==
  IF \E i \in DOMAIN m.packs : m.packs[i] > m.ipos
  THEN LET i == CHOOSE i \in DOMAIN m.packs : m.packs[i] > m.ipos /\ \A j \in 1..(i - 1) : m.packs[j] <= m.ipos
       IN MinN(m.packs[i], Len(input))
  ELSE Len(input)

LOCAL Nread(m, input, args) ==
  LET fd == Arg(args, 1)
      n == Count(Arg(args, 3))
      p == Arg(args, 2)
  IN IF ~IsInt(fd) \/ n = -1 \/ ~WSmall(fd[2]) THEN Fail2(m)
     ELSE IF WInt(fd[2]) \notin {0} \ m.closed THEN <<m, SomeNeg>>
     ELSE LET k == MinN(n, Arrived(m, input) - m.ipos) IN
          IF k = 0 THEN <<m, Zero>>
          ELSE IF ~(Live(m, p) /\ m.mem[p[2]].w /\ p[3] >= 0
                    /\ p[3] + n <= 8 * Len(m.mem[p[2]].c))
          THEN Fail2(m)
          ELSE LET obj == m.mem[p[2]]
                   hit(j) == 8 * j < p[3] + k /\ 8 * j + 8 > p[3]
                   old(j) == LET v == obj.c[j + 1] IN
                             IF Bytewise(v) THEN BytesOf(v) ELSE BytesOf(Undef)
                   new(j) == LET o == old(j) IN
                             OfBytes(TLCEval([i \in 1..8 |->
                               LET q == 8 * j + i - 1 - p[3] IN
                               IF q >= 0 /\ q < k THEN input[m.ipos + q + 1] ELSE o[i]]))
                   cells == TLCEval([j \in 1..Len(obj.c) |->
                               IF hit(j - 1) THEN new(j - 1) ELSE obj.c[j]])
               IN <<[m EXCEPT !.mem[p[2]].c = cells, !.ipos = @ + k], NumN(k)>>

LOCAL Char(m, args) ==
  LET p == Arg(args, 1)
      i == Arg(args, 2)
  IN IF ~IsPtr(p) \/ ~IsInt(i) THEN Fail2(m)
     ELSE IF ~WSmall(i[2]) THEN Fail2(m)
     ELSE LET b == ByteAt(m, p, WInt(i[2])) IN
          IF b = -1 THEN Fail2(m) ELSE <<m, NumN(b)>>

LOCAL Lchar(m, args) ==
  LET p == Arg(args, 1)
      i == Arg(args, 2)
      c == Arg(args, 3)
  IN IF ~IsPtr(p) \/ ~IsInt(i) \/ ~IsInt(c) THEN Fail2(m)
     ELSE IF ~WSmall(i[2]) THEN Fail2(m)
     ELSE IF ~CanSetByte(m, p, WInt(i[2])) THEN Fail2(m)
     ELSE <<SetByte(m, p, WInt(i[2]), WByte(c[2], 0)), Undef>>

LOCAL Read(m, input) ==
  IF m.ipos >= Len(input) \/ 0 \in m.closed THEN <<m, NumN(4)>>
  ELSE LET c == input[m.ipos + 1]
       IN <<[m EXCEPT !.ipos = @ + 1], IF c \in 1..127 THEN NumN(c) ELSE Zero>>

\* Call library function f
Library(m, input, f, args) ==
  LET a == Arg(args, 1) IN
  CASE f = "write"  -> IF IsInt(a) THEN <<Emit(m, WordChars(a[2])), Undef>> ELSE Fail2(m)
    [] f = "writeb" -> IF IsInt(a) THEN <<Emit(m, <<WByte(a[2], 0)>>), Undef>> ELSE Fail2(m)
    [] f = "printd" -> IF IsInt(a) THEN <<Emit(m, Decimal(a[2])), Undef>> ELSE Fail2(m)
    [] f = "printo" -> IF IsInt(a) THEN <<Emit(m, WDigits(a[2], 8)), Undef>> ELSE Fail2(m)
    [] f = "printf" ->
         IF ~IsPtr(a) THEN Fail2(m)
         ELSE LET r == Format(m, a, args, 0, 2, <<>>) IN
              IF r[1] THEN <<Emit(m, r[2]), Undef>> ELSE Fail2(m)
    [] f = "nwrite" -> Nwrite(m, args)
    [] f = "nread"  -> Nread(m, input, args)
    [] f = "read"   -> Read(m, input)
    [] f = "char"   -> Char(m, args)
    [] f = "lchar"  -> Lchar(m, args)
    [] f = "flush"  -> <<m, Undef>>
    [] f = "exit"   -> <<[m EXCEPT !.st = "exit", !.code = 0], Undef>>

-----------------------------------------------------------------------------
(* Instructions *)

\* Top of the stack, and below it
LOCAL T1(m) == m.stk[Len(m.stk)]
LOCAL T2(m) == m.stk[Len(m.stk) - 1]
LOCAL Cut(m, k) == SubSeq(m.stk, 1, Len(m.stk) - k)
LOCAL Push(m, v) == [m EXCEPT !.stk = Append(@, v), !.pc = @ + 1]
\* Replace the k topmost values by v
LOCAL Repl(m, k, v) == [m EXCEPT !.stk = Append(Cut(m, k), v), !.pc = @ + 1]

LOCAL Local(m, slot) == <<1, m.base + slot, 0, m.mem[m.base + slot].ser>>

LOCAL UndefWords(n) == TLCEval([i \in 1..n |-> Undef])

\* Enter function f; the arguments become the first locals
LOCAL Enter(prog, m, f, args) ==
  LET d == prog.fdef[f]
      base == Len(m.mem)
      vecdata == {k + 1 : k \in DOMAIN d.vecs}
      obj(k) == [w |-> TRUE, ser |-> m.ser + k,
                 c |-> IF k <= d.params THEN <<IF k <= Len(args) THEN args[k] ELSE Undef>>
                       ELSE IF k \in vecdata THEN UndefWords(d.vecs[k - 1])
                       ELSE <<Undef>>]
  IN [m EXCEPT !.mem = @ \o [k \in 1..d.slots |-> obj(k)],
               !.ser = @ + d.slots,
               !.up = Append(@, [fn |-> m.fn, pc |-> m.pc + 1, base |-> m.base,
                                 stk |-> Cut(m, Len(args) + 1)]),
               !.fn = f, !.pc = 1, !.base = base, !.stk = <<>>]

LOCAL Return(m, v) ==
  IF m.up = <<>> THEN
    IF IsInt(v) THEN [m EXCEPT !.st = "exit", !.code = WByte(v[2], 0)] ELSE Ub(m)
  ELSE LET u == m.up[Len(m.up)] IN
       [m EXCEPT !.mem = SubSeq(@, 1, m.base), !.fn = u.fn, !.pc = u.pc, !.base = u.base,
                 !.stk = Append(u.stk, v), !.up = SubSeq(@, 1, Len(@) - 1)]

LOCAL Call(prog, input, m, n) ==
  LET args == SubSeq(m.stk, Len(m.stk) - n + 1, Len(m.stk))
      f == m.stk[Len(m.stk) - n]
  IN IF ~IsFn(f) THEN Ub(m)
     ELSE IF f[2] \in DOMAIN prog.fdef THEN Enter(prog, m, f[2], args)
     ELSE IF f[2] \in RuntimeFns THEN
       LET r == Library(m, input, f[2], args)
       IN IF r[1].st # "run" THEN r[1] ELSE Repl(r[1], n + 1, r[2])
     ELSE [m EXCEPT !.st = "nofn"]        \* a function defined nowhere

LOCAL AutoDecl(m, slot, words) ==
  LET o == m.base + slot IN
  IF words = 0 THEN [m EXCEPT !.mem[o].c = <<Zero>>, !.pc = @ + 1]
  ELSE [m EXCEPT !.mem[o].c = <<<<1, o + 1, 0, m.mem[o + 1].ser>>>>,
                 !.mem[o + 1].c = UndefWords(words), !.pc = @ + 1]

\* The operator of a compound assignment
LOCAL OpOf(op) ==
  CASE op = "=+" -> "+" [] op = "=-" -> "-" [] op = "=*" -> "*" [] op = "=/" -> "/"
    [] op = "=%" -> "%" [] op = "=&" -> "&" [] op = "=|" -> "|" [] op = "=<<" -> "<<"
    [] op = "=>>" -> ">>" [] op = "=<" -> "<" [] op = "=<=" -> "<=" [] op = "=>" -> ">"
    [] op = "=>=" -> ">=" [] op = "===" -> "==" [] op = "=!=" -> "!="

LOCAL Exec(prog, input, m, c) ==
  CASE c[1] = "w" -> Push(m, Num(c[2]))
    [] c[1] = "lea" -> Push(m, Local(m, c[2]))
    [] c[1] = "load" -> IF CanLoad(m, T1(m)) THEN Repl(m, 1, Load(m, T1(m))) ELSE Ub(m)
    [] c[1] = "glob" -> Push(m, <<1, prog.gobj[c[2]], 0, prog.gobj[c[2]]>>)
    [] c[1] = "str" -> Push(m, <<1, c[2] + 1, 0, c[2] + 1>>)
    [] c[1] = "fn" -> Push(m, <<2, c[2]>>)
    [] c[1] = "bin" ->
         LET v == Binary(c[2], T2(m), T1(m))
         IN IF v = Undef THEN Ub(m) ELSE Repl(m, 2, v)
    [] c[1] = "asg" ->
         IF ~CanStore(m, T2(m)) THEN Ub(m)
         ELSE IF c[2] = "=" THEN Repl(Store(m, T2(m), T1(m)), 2, T1(m))
         ELSE LET v == Binary(OpOf(c[2]), Load(m, T2(m)), T1(m))
              IN IF v = Undef THEN Ub(m) ELSE Repl(Store(m, T2(m), v), 2, v)
    [] c[1] = "peek" -> IF CanStore(m, T1(m)) THEN Push(m, Load(m, T1(m))) ELSE Ub(m)
    [] c[1] = "upd" ->
         LET v == Binary(OpOf(c[2]), T2(m), T1(m))
             a == m.stk[Len(m.stk) - 2]
         IN IF v = Undef \/ ~CanStore(m, a) THEN Ub(m) ELSE Repl(Store(m, a, v), 3, v)
    [] c[1] = "pop" -> [m EXCEPT !.stk = Cut(m, 1), !.pc = @ + 1]
    [] c[1] = "lab" -> [m EXCEPT !.pc = @ + 1]
    [] c[1] = "jmp" -> [m EXCEPT !.pc = c[2]]
    [] c[1] = "jz" ->
         LET t == Truth(T1(m)) IN
         IF t = "ub" THEN Ub(m)
         ELSE [m EXCEPT !.stk = Cut(m, 1), !.pc = IF t = "false" THEN c[2] ELSE @ + 1]
    [] c[1] = "call" -> Call(prog, input, m, c[2])
    [] c[1] = "ret" -> Return(m, T1(m))
    [] c[1] = "index" ->
         (IF IsInt(T1(m)) /\ IsAddr(T2(m)) THEN
            LET v == Binary("+", T2(m), Num(WMul(T1(m)[2], WFrom(8))))
            IN IF v = Undef THEN Ub(m) ELSE Repl(m, 2, v)
          ELSE Ub(m))
    [] c[1] = "not" ->
         LET t == Truth(T1(m)) IN
         IF t = "ub" THEN Ub(m) ELSE Repl(m, 1, Num(WBool(t = "false")))
    [] c[1] = "neg" -> IF IsInt(T1(m)) THEN Repl(m, 1, Num(WNeg(T1(m)[2]))) ELSE Ub(m)
    [] c[1] \in {"pre", "post"} ->
         IF ~CanStore(m, T1(m)) THEN Ub(m)
         ELSE LET old == Load(m, T1(m))
                  new == Binary("+", old, NumN(c[2]))
              IN IF new = Undef THEN Ub(m)
                 ELSE Repl(Store(m, T1(m), new), 1, IF c[1] = "pre" THEN new ELSE old)
    [] c[1] = "auto" -> AutoDecl(m, c[2], c[3])
    [] c[1] = "swap" -> [m EXCEPT !.stk = Cut(m, 2) \o <<T1(m), T2(m)>>, !.pc = @ + 1]
    [] c[1] = "rev" ->
         [m EXCEPT !.stk = Cut(m, c[2]) \o
              TLCEval([i \in 1..c[2] |-> m.stk[Len(m.stk) + 1 - i]]), !.pc = @ + 1]
    [] c[1] = "switch" ->
         IF ~IsInt(T1(m)) THEN Ub(m)
         ELSE LET hits == {i \in DOMAIN c[2] : c[2][i][1] = T1(m)[2]}
              IN [m EXCEPT !.stk = Cut(m, 1),
                           !.pc = IF hits = {} THEN c[3] ELSE c[2][CHOOSE i \in hits : TRUE][2]]

Step(prog, input, m) ==
  IF m.st # "run" THEN m
  ELSE Exec(prog, input, [m EXCEPT !.n = @ + 1], prog.fdef[m.fn].code[m.pc])

-----------------------------------------------------------------------------
(* Start *)

\* Objects: fout, the strings, then the globals; a vector is two objects
LOCAL GlobalNames(prog) == SetToSeq(DOMAIN prog.gdef)

LOCAL SizeOf(g) == IF g.kind = "vec" THEN 2 ELSE 1

\* The first object of every global; fout is the library's
Places(prog) ==
  LET f == FoldLeft(LAMBDA acc, n : [at |-> acc.at @@ (n :> acc.next),
                                     next |-> acc.next + SizeOf(prog.gdef[n])],
                    [at |-> EmptyFn, next |-> 2 + Len(prog.strs)], GlobalNames(prog))
  IN f.at

\* The program with its globals placed
Placed(prog) ==
  LET at == Places(prog)
  IN [x \in DOMAIN prog \cup {"gobj"} |->
        IF x = "gobj" THEN [n \in DOMAIN at |-> IF n = "fout" THEN 1 ELSE at[n]] ELSE prog[x]]

InitialMem(prog) ==
  LET at == Places(prog)
      cell(v) == IF v[1] = "w" THEN Num(v[2]) ELSE <<1, v[2] + 1, 0, v[2] + 1>>
      words(g) == [i \in 1..g.words |-> IF i <= Len(g.vals) THEN cell(g.vals[i]) ELSE Zero]
      objs(n) == LET g == prog.gdef[n]
                     k == at[n] IN
                 IF g.kind = "var" THEN <<[w |-> TRUE, ser |-> k, c |-> words(g)]>>
                 ELSE <<[w |-> TRUE, ser |-> k, c |-> <<<<1, k + 1, 0, k + 1>>>>],
                        [w |-> TRUE, ser |-> k + 1, c |-> words(g)]>>
  IN <<[w |-> TRUE, ser |-> 1, c |-> <<Zero>>]>> \o
     [i \in DOMAIN prog.strs |-> [w |-> FALSE, ser |-> i + 1, c |-> Append(prog.strs[i], 0)]] \o
     FoldLeft(LAMBDA acc, n : acc \o objs(n), <<>>, GlobalNames(prog))

\* The machine about to execute main
Start(prog, mem, closed, packs) ==
  LET d == prog.fdef["main"]
      m0 == [st |-> "run", fn |-> "main", pc |-> 1, stk |-> <<>>, base |-> Len(mem), up |-> <<>>,
             mem |-> mem, ser |-> Len(mem), ipos |-> 0, out |-> <<>>, code |-> 0, n |-> 0,
             closed |-> closed, packs |-> packs]
      m1 == Enter(prog, [m0 EXCEPT !.stk = <<<<2, "main">>>>], "main", <<>>)
  IN [m1 EXCEPT !.up = <<>>]

\* What was written to stream s
Written(m, s) ==
  FoldLeft(LAMBDA acc, o : IF o[1] = s THEN acc \o o[2] ELSE acc, <<>>, m.out)
\* What was written altogether
WrittenAll(m) == FoldLeft(LAMBDA acc, o : acc \o o[2], <<>>, m.out)

-----------------------------------------------------------------------------
(* Invariants of the machine: what C04 and C05 promise of storage *)

\* No two objects that exist at the same time share a serial number, so no
\* storage is shared and no address of a dead object is valid
DistinctStorage(m) ==
  Cardinality({m.mem[i].ser : i \in DOMAIN m.mem}) = Len(m.mem)
\* Locals of suspended activations are stacked in order below the current ones
FramesNest(m) ==
  LET bases == [i \in 1..Len(m.up) |-> m.up[i].base] \o <<m.base>>
  IN /\ \A i \in 1..(Len(bases) - 1) : bases[i] <= bases[i + 1]
     /\ m.base <= Len(m.mem)
\* A defined address refers to an object that exists or is recognizably dead
AddressesSound(m) ==
  \A i \in DOMAIN m.mem : m.mem[i].w =>
    \A k \in DOMAIN m.mem[i].c :
      LET v == m.mem[i].c[k] IN IsAddr(v) => v[4] <= m.ser
=============================================================================
