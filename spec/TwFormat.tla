------------------------------ MODULE TwFormat ------------------------------
(* How the format of an input is decided: from the mode, the file's name and *)
(* its first bytes.                                                          *)
EXTENDS TwUtil

Dot == 46
Slash == 47
WasmExt  == <<119, 97, 115, 109>>      \* wasm
Magic    == <<0, 97, 115, 109>>        \* \0asm
NoExt    == <<-1>>
Modes    == {"auto", "wasm", "dwarf"}

(* Of a path as bytes: what follows the last slash.                          *)
RECURSIVE LastIs(_, _, _)
LastIs(s, x, i) == IF i = 0 THEN 0 ELSE IF s[i] = x THEN i ELSE LastIs(s, x, i - 1)
FileName(p) == Suffix(p, LastIs(p, Slash, Len(p)))

(* What follows the last dot of the file name, which has to have a name in   *)
(* front of it.                                                              *)
Extension(p) ==
    LET f == FileName(p)
        d == LastIs(f, Dot, Len(f))
    IN IF d <= 1 \/ f = <<Dot, Dot>> THEN NoExt ELSE Suffix(f, d)

HasWasmExt(p) == Extension(p) = WasmExt
HasMagic(b) == Len(b) >= 4 /\ Prefix(b, 4) = Magic

(* The reader an input is given to.                                          *)
Reader(mode, path, head) ==
    CASE mode = "wasm"  -> "wasm"
      [] mode = "dwarf" -> "object"
      [] mode = "auto"  -> IF HasWasmExt(path) \/ HasMagic(head) THEN "wasm" ELSE "object"
      [] OTHER          -> "rejected"
=============================================================================
