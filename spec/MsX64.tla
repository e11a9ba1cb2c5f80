-------------------------------- MODULE MsX64 --------------------------------
(***************************************************************************)
(* The Microsoft x64 convention as GCC implements it (FFI_GNUW64) and as   *)
(* Microsoft compilers do (FFI_WIN64): one 8-byte slot per argument,       *)
(* objects of 1, 2, 4 or 8 bytes inline, everything else by reference to a *)
(* copy the caller makes.                                                  *)
(***************************************************************************)
EXTENDS Layout

ByRef(t) == SizeOf(t) \notin {1, 2, 4, 8}
\* results: "V" none, "R" in RAX, "X" in XMM0, "M" hidden pointer in slot 0
MsRet(t) ==
  CASE t.k = "v" -> "V"
    [] t.k \in {"f", "d"} -> "X"
    [] t.k = "ld" -> "M"              \* FFI_GNUW64 only; see MsSupported
    [] IsStruct(t) \/ t.k \in ComplexKinds -> IF ByRef(t) THEN "M" ELSE "R"
    [] OTHER -> "R"
MsHidden(t) == MsRet(t) = "M"
SlotOf(ret, i) == IF MsHidden(ret) THEN i ELSE i - 1     \* 0-based slot of argument i (1-based)
\* long double results exist only in the GNU flavour
MsSupported(abi, ret, args) == abi = "gnuw64" \/ ret.k # "ld"
=============================================================================
