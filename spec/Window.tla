--------------------------------- MODULE Window ---------------------------------
(* A reader of a file of a known number of points: a position that moves with  *)
(* every read and seek.                                                        *)
EXTENDS Integers
Least(a, b) == IF a < b THEN a ELSE b
Reads(total, pos, count) == Least(count, total - pos)
Target(total, pos, whence, off) == CASE whence = "start" -> off [] whence = "end" -> total + off [] OTHER -> pos + off
Clamped(total, p) == IF p > total THEN total ELSE p
=============================================================================
