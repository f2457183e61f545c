(* C23 Base64, C24 hexadecimal *)
open Cryptokit
type ('a,'b) result = ('a,'b) Stdlib.result = Ok of 'a | Error of 'b
open Zoo
module G = Gen0
let spf = Printf.sprintf

let feed g (t : transform) s =
  let out = Buffer.create 256 in
  Work.run_tr g t s out;
  Mon.event "characters_fed" (String.length s);
  Buffer.contents out
(* one of the ways of running a transform over a whole string *)
let run g mk s = match G.int g 4 with
  | 0 -> transform_string (mk ()) s
  | 1 -> let t = mk () in String.iter (fun c -> t#put_byte (Char.code c)) s; t#finish; t#get_string
  | _ -> feed g (mk ()) s

let is_ws c = c = ' ' || c = '\t' || c = '\n' || c = '\r'

let encs = [| "compact", Base64.encode_compact; "compact_pad", Base64.encode_compact_pad; "multiline", Base64.encode_multiline |]
let check_enc g i s =
  let name, mk = encs.(i) in
  let n = String.length s in
  let got = run g mk s in
  let key = spf "b64 %s n=%d" name n in
  if i < 2 then Mon.check_eq key ~got ~want:(ref_b64 (i = 1) s)
  else begin
    Mon.check_eq key ~got:(strip_nl got) ~want:(ref_b64 true s);
    List.iter (fun l -> if String.length l > 76 then Mon.fail "%s: line of %d characters" key (String.length l))
      (String.split_on_char '\n' got);
    if String.length got > 0 && String.length (strip_nl got) > 76 && not (String.contains got '\n') then Mon.fail "%s: no line break" key
  end;
  got
let data g n = if G.bool g then G.raw g n else G.str g n
let enc_case i g =
  let n = match G.int g 5 with
    | 0 -> i / 3 mod 1100 | 1 -> G.len g 600 | 2 -> 54 * G.range g 0 20 + G.range g (-3) 3
    | 3 -> 192 * G.range g 0 8 + G.range g (-3) 3 | _ -> G.len g 5000 in
  ignore (check_enc g (i mod 3) (data g (max 0 n)))
let sizes_case i g = for e = 0 to 2 do ignore (check_enc g e (G.raw g i)) done
(* every byte value in every place of a group *)
let bytes_case i g =
  let b = Char.chr i in
  for x = 0 to 255 do
    let x = Char.chr x in
    let s = match G.int g 6 with
      | 0 -> spf "%c%c" b x | 1 -> spf "%c%c%c" b x (Char.chr (G.int g 256)) | 2 -> spf "%c%c%c" (Char.chr (G.int g 256)) b x
      | 3 -> spf "%c%c%c%c" b x b x | 4 -> spf "%c%c%c" x (Char.chr (G.int g 256)) b | _ -> spf "%c%c%c%c%c" x b x x b in
    let e = check_enc g (G.int g 3) s in
    Mon.check_eq (spf "b64 inverse n=%d b=%d" (String.length s) i) ~got:(run g Base64.decode e) ~want:s
  done
let ws_heavy g s =
  let p = G.pick g [| 1; 2; 4; 30 |] in
  let b = Buffer.create 100 in
  let add () = while G.chance g (p + 1) do Buffer.add_char b (G.pick g [| ' '; '\t'; '\n'; '\r' |]) done in
  String.iter (fun c -> add (); Buffer.add_char b c) s; add (); add (); Buffer.contents b
let inv_case i g =
  let s = data g (G.len g 2000) in
  let e = check_enc g (i mod 3) s in
  let e' = if G.bool g then ws_heavy g e else e in
  Mon.check_eq (spf "b64 inverse %d n=%d" (i mod 3) (String.length s)) ~got:(run g Base64.decode e') ~want:s;
  (* through the composition of the two transforms *)
  let t = compose ((snd encs.(i mod 3)) ()) (Base64.decode ()) in
  Mon.check_eq (spf "b64 compose %d n=%d" (i mod 3) (String.length s)) ~got:(run g (fun () -> t) s) ~want:s

(* Reference acceptor.  `Bad: the statement requires rejection; `Ok out: acceptance required; `Any: not specified
   (misplaced or missing padding, non-zero discarded bits). *)
let acceptor s =
  let n = ref 0 and fin = ref false and eqs = ref 0 and bad = ref false in
  let last = ref 0 in
  String.iter (fun c ->
      if is_ws c then ()
      else if c = '=' then (fin := true; incr eqs)
      else match String.index_opt b64tab c with
        | None -> bad := true
        | Some v -> if !fin then bad := true; incr n; last := v) s;
  if !bad || !n land 3 = 1 then `Bad
  else begin
    let canon = match !n land 3 with 0 -> true | 2 -> !last land 15 = 0 | _ -> !last land 3 = 0 in
    let want_eq = match !n land 3 with 2 -> 2 | 3 -> 1 | _ -> 0 in
    if canon && (!eqs = 0 || !eqs = want_eq) then `Ok (b64_dec s) else `Any
  end
let judge key g mk acc s =
  let r = Mon.catch (fun () -> run g mk s) in
  match acc s, r with
  | `Ok w, Ok o -> Mon.check_eq (key ^ " accepted") ~got:o ~want:w; Mon.event "well_formed_accepted" 1
  | `Ok _, Error e -> Mon.seen key; Mon.fail "%s: well-formed text refused with %s: %S" key e s
  | `Bad, Ok o -> Mon.seen key; Mon.fail "%s: malformed text accepted: %S -> %s" key s (Mon.hex o)
  | `Bad, Error e -> Mon.check (spf "%s rejected with %s instead of Bad_encoding: %S" key e s) (e = "Bad_encoding"); Mon.event "malformed_rejected" 1
  | `Any, Ok _ -> Mon.seen (key ^ " unspecified ok")
  | `Any, Error e -> Mon.check (spf "%s failed with %s: %S" key e s) (e = "Bad_encoding")
let mutate g s =
  let n = String.length s in
  let p = G.int g (n + 1) in
  let ins c = String.sub s 0 p ^ c ^ String.sub s p (n - p) in
  match G.int g 7 with
  | 0 -> ins (String.make 1 (Char.chr (G.int g 256)))
  | 1 -> ins "="
  | 2 -> if n = 0 then "A" else let p = G.int g n in String.sub s 0 p ^ String.sub s (p + 1) (n - p - 1)
  | 3 -> s ^ G.pick g [| "A"; "AA"; "AAA"; "AAAA"; "="; "=A"; "="; "\n"; "==A"; "\000"; "== ="; "-" ; "_" |]
  | 4 -> String.sub s 0 (G.int g (n + 1))
  | 5 -> if n = 0 then "*" else let p = G.int g n in String.mapi (fun i c -> if i = p then Char.chr (G.int g 256) else c) s
  | _ -> ins (G.pick g [| "-"; "_"; "."; ","; "\011"; "\012"; "\160"; "\255"; "@"; "["; "`"; "{"; ":"; "*"; "\128" |])
let junk_case i g =
  let s = data g (if G.bool g then G.int g 8 else G.len g 500) in
  let e = ref (match G.int g 3 with 0 -> ref_b64 false s | 1 -> ref_b64 true s | _ -> transform_string (Base64.encode_multiline ()) s) in
  for _ = 1 to G.range g 1 2 do e := mutate g !e done;
  judge (spf "b64 junk n=%d r=%d" (String.length s) (String.length !e land 3)) g Base64.decode acceptor !e
(* every character at every position of a short text *)
let char_case i g =
  let c = String.make 1 (Char.chr i) in
  List.iter (fun base ->
      for p = 0 to String.length base do
        let s = String.sub base 0 p ^ c ^ String.sub base p (String.length base - p) in
        judge (spf "b64 char %d at %d of %d" i p (String.length base)) g Base64.decode acceptor s
      done) [ ""; "QUJDREU="; "QUJDRA=="; "QUJDREVG"; "QUJDREU" ]
let rand_case i g =
  let n = G.int g 40 in
  let s = String.init n (fun _ -> if G.chance g 30 then Char.chr (G.int g 256) else if G.chance g 30 then '=' else if G.chance g 8 then ' ' else b64tab.[G.int g 64]) in
  judge (spf "b64 random %d" n) g Base64.decode acceptor s

(* ---- hexadecimal ---- *)
let hex_case s = fun g -> String.map (fun c -> if G.bool g then Char.uppercase_ascii c else c) s
let hacc s =
  let n = ref 0 and bad = ref false in
  String.iter (fun c -> if is_ws c then () else match c with
      | '0'..'9' | 'a'..'f' | 'A'..'F' -> incr n | _ -> bad := true) s;
  if !bad || !n land 1 = 1 then `Bad else `Ok (hex_dec s)
let henc_case i g =
  let n = match G.int g 3 with 0 -> i mod 600 | 1 -> 128 * G.range g 0 10 + G.range g (-2) 2 | _ -> G.len g 5000 in
  let s = data g (max 0 n) in
  Mon.check_eq (spf "hex enc n=%d" n) ~got:(run g Hexa.encode s) ~want:(ref_hex s);
  let h = ref_hex s in
  let h = match G.int g 3 with 0 -> h | 1 -> String.uppercase_ascii h | _ -> hex_case h g in
  let h = if G.bool g then ws_heavy g h else h in
  Mon.check_eq (spf "hex dec n=%d" n) ~got:(run g Hexa.decode h) ~want:s;
  Mon.check_eq (spf "hex compose n=%d" n) ~got:(run g (fun () -> compose (Hexa.encode ()) (Hexa.decode ())) s) ~want:s
(* flushing at even positions must not disturb decoding *)
let hflush_case i g =
  let s = data g (G.len g 400) in
  let h = ref_hex s in
  let d = Hexa.decode () and e = Hexa.encode () in
  let od = Buffer.create 100 and oe = Buffer.create 100 in
  String.iteri (fun k c ->
      e#put_char c; if G.chance g 5 then e#flush; Work.drain g e oe;
      d#put_char h.[2 * k];
      if G.chance g 9 then d#put_string (String.make (G.int g 3) '\n');
      if G.chance g 9 then (match Mon.catch (fun () -> d#flush) with
          | Error "Wrong_data_length" -> Mon.seen "hex flush in the middle of a byte refused"
          | Ok () -> Mon.fail "hex flush in the middle of a byte accepted"
          | Error e -> Mon.fail "hex flush in the middle of a byte: %s" e);
      d#put_byte (Char.code h.[2 * k + 1]);
      if G.chance g 5 then d#flush; Work.drain g d od) s;
  if G.bool g then d#flush;
  d#finish; e#finish;
  Buffer.add_string od d#get_string; Buffer.add_string oe e#get_string;
  Mon.check_eq "hex dec with flushes" ~got:(Buffer.contents od) ~want:s;
  Mon.check_eq "hex enc with flushes" ~got:(Buffer.contents oe) ~want:h
let hbytes_case i g =
  let b = Char.chr i in
  let s = spf "%c%c%c" b (Char.chr (G.int g 256)) b in
  Mon.check_eq (spf "hex byte %d" i) ~got:(run g Hexa.encode s) ~want:(ref_hex s);
  List.iter (fun h -> Mon.check_eq (spf "hex byte %d dec" i) ~got:(run g Hexa.decode h) ~want:(String.make 1 b))
    [ spf "%02x" i; spf "%02X" i; spf "%X%x" (i / 16) (i land 15); spf "%x%X" (i / 16) (i land 15); spf " %x\n%x\t" (i / 16) (i land 15) ];
  List.iter (fun base ->
      for p = 0 to String.length base do
        let s = String.sub base 0 p ^ String.make 1 b ^ String.sub base p (String.length base - p) in
        judge (spf "hex char %d at %d of %d" i p (String.length base)) g Hexa.decode hacc s
      done) [ ""; "4"; "4a"; "4aB"; "0f9E"; "00aAf" ]
let hjunk_case i g =
  let s = ref (ref_hex (data g (if G.bool g then G.int g 6 else G.len g 300))) in
  if G.bool g then s := hex_case !s g;
  if G.bool g then s := ws g !s;
  for _ = 1 to G.range g 1 3 do s := mutate g !s done;
  judge (spf "hex junk r=%d n=%d" (String.length !s land 1) (String.length !s)) g Hexa.decode hacc !s

let f name quick thorough run = { Mon.name; quick; thorough; run }
let props = [
  "C23", [ f "sizes" 1200 6000 sizes_case; f "encode" 30000 100000 enc_case; f "bytes" 256 256 bytes_case; f "inverse" 30000 100000 inv_case;
           f "junk" 200000 1000000 junk_case; f "chars" 256 256 char_case; f "random" 200000 500000 rand_case ];
  "C24", [ f "encode" 30000 100000 henc_case; f "flush" 15000 30000 hflush_case; f "bytes" 256 256 hbytes_case; f "junk" 200000 1000000 hjunk_case ];
]
