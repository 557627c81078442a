--------------------------------- MODULE Big ---------------------------------
(* Natural numbers of any size: sequences of digits to the base 1000, least    *)
(* significant first, without leading zeros (so zero is <<>>).                 *)
EXTENDS Integers, Sequences
LOCAL Base == 1000
RECURSIVE BigOf(_)
BigOf(k) == IF k = 0 THEN <<>> ELSE <<k % Base>> \o BigOf(k \div Base)
RECURSIVE BigAddC(_,_,_)
BigAddC(x, y, c) ==
  IF x = <<>> /\ y = <<>> THEN BigOf(c)
  ELSE LET s == (IF x = <<>> THEN 0 ELSE x[1]) + (IF y = <<>> THEN 0 ELSE y[1]) + c
           tl(z) == IF z = <<>> THEN z ELSE Tail(z)
       IN <<s % Base>> \o BigAddC(tl(x), tl(y), s \div Base)
BigAdd(x, y) == BigAddC(x, y, 0)
(* times a number below 2^20 *)
RECURSIVE BigScaleC(_,_,_)
BigScaleC(x, k, c) == IF x = <<>> THEN BigOf(c)
  ELSE LET s == x[1] * k + c IN <<s % Base>> \o BigScaleC(Tail(x), k, s \div Base)
BigScale(x, k) == IF k = 0 THEN <<>> ELSE BigScaleC(x, k, 0)
RECURSIVE BigMul(_,_)
BigMul(x, y) == IF x = <<>> \/ y = <<>> THEN <<>>
  ELSE LET r == BigMul(Tail(x), y)
       IN BigAdd(BigScale(y, x[1]), IF r = <<>> THEN r ELSE <<0>> \o r)
RECURSIVE BigPow2(_)
BigPow2(k) == IF k = 0 THEN BigOf(1) ELSE BigScale(BigPow2(k-1), 2)
(* exact division by a small number, most significant digit first *)
RECURSIVE BigDivC(_,_,_)
BigDivC(x, k, i) ==   \* <<quotient digits i.., remainder>>
  IF i > Len(x) THEN <<<<>>, 0>>
  ELSE LET hi == BigDivC(x, k, i+1) v == hi[2] * Base + x[i]
           q == v \div k
       IN <<IF q = 0 /\ hi[1] = <<>> THEN <<>> ELSE <<q>> \o hi[1], v % k>>
BigDiv(x, k) == BigDivC(x, k, 1)[1]
RECURSIVE BigChoose(_,_)
BigChoose(a, b) == IF b = 0 THEN BigOf(1) ELSE IF b > a THEN <<>> ELSE BigDiv(BigScale(BigChoose(a, b-1), a - b + 1), b)
(* x - y for y <= x *)
RECURSIVE BigSubC(_,_,_)
BigSubC(x, y, c) ==
  IF x = <<>> THEN <<>>
  ELSE LET s == x[1] - (IF y = <<>> THEN 0 ELSE y[1]) - c
           r == BigSubC(Tail(x), IF y = <<>> THEN y ELSE Tail(y), IF s < 0 THEN 1 ELSE 0)
           d == IF s < 0 THEN s + Base ELSE s
       IN IF d = 0 /\ r = <<>> THEN <<>> ELSE <<d>> \o r
BigSub(x, y) == BigSubC(x, y, 0)
=============================================================================
