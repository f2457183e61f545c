(* C28: exact comparison in content-independent time *)
open Cryptokit
type ('a,'b) result = ('a,'b) Stdlib.result = Ok of 'a | Error of 'b
open Zoo
module G = Gen0
let spf = Printf.sprintf

let both key a b =
  let want = String.equal a b in
  Mon.check (spf "%s: string_equal is not %b on %s / %s" key want (Mon.hex a) (Mon.hex b)) (string_equal a b = want);
  Mon.check (spf "%s: bytes_equal is not %b on %s / %s" key want (Mon.hex a) (Mon.hex b)) (bytes_equal (Bytes.of_string a) (Bytes.of_string b) = want)
let flip s p d = String.mapi (fun i c -> if i = p then Char.chr (Char.code c lxor d) else c) s
let mutant g s =
  let n = String.length s in
  if n = 0 then (if G.bool g then "" else G.raw g (G.int g 3)) else
    match G.int g 9 with
    | 0 -> s
    | 1 -> flip s (G.int g n) (1 lsl G.int g 8)
    | 2 -> String.sub s 0 (G.int g n)
    | 3 -> s ^ G.str g (G.range g 1 4)
    | 4 -> let p = G.int g n in let d = G.range g 1 255 in flip (flip s p d) (G.int g n) d   (* differences that cancel *)
    | 5 -> flip (flip s 0 128) (n - 1) 128
    | 6 -> String.init n (fun i -> s.[n - 1 - i])
    | 7 -> let k = G.int g n in String.sub s k (n - k) ^ String.sub s 0 k
    | _ -> G.str g n
let exact_case i g =
  let s = G.str g (if i land 1 = 0 then G.int g 40 else G.len g 600) in
  both (spf "exact n=%d" (String.length s)) s (String.sub s 0 (String.length s));
  for _ = 1 to 6 do both (spf "exact n=%d" (String.length s)) s (mutant g s) done
(* every position and every bit *)
let pos_case i g =
  let s = G.raw g i in
  for p = 0 to i - 1 do for b = 0 to 7 do both (spf "bit %d of byte %d of %d" b p i) s (flip s p (1 lsl b)) done done;
  for k = 0 to i + 3 do both (spf "lengths %d %d" i k) s (if k <= i then String.sub s 0 k else s ^ String.make (k - i) (Char.chr (G.int g 256))) done
(* large lengths: the difference anywhere *)
let long_case i g =
  let n = G.pick g [| 4096; 65536; 100_001; 1_000_003 |] in
  let s = G.raw g n in
  both "long equal" s (String.sub s 0 n);
  for _ = 1 to 4 do both (spf "long %d" n) s (flip s (G.int g n) (1 lsl G.int g 8)) done;
  both "long last" s (flip s (n - 1) 1)

(* ---- instruction counts ---- *)
let count f =
  Gc.minor ();
  let n, _ = Mon.steps f in
  Mon.event "instructions_counted" n; n
let pairs g s =
  let n = String.length s in
  (* pairs of equal length that differ, in various ways *)
  let l = ref [ s, flip s 0 1; s, flip s (n - 1) 128; s, flip s (n / 2) 255; s, G.raw g n; s, String.map (fun c -> Char.chr (255 - Char.code c)) s;
                String.make n '\000', String.make n '\255'; String.make n '\255', String.make (n - 1) '\255' ^ "\000"; s, flip (flip s 0 7) (n - 1) 7 ] in
  for _ = 1 to 3 do
    let p = G.int g n in l := (s, flip s p (G.range g 1 255)) :: !l
  done;
  List.filter (fun (a, b) -> a <> b) !l
(* [l]: measurements and descriptions.  Unrelated runtime activity (collector slices, alignment) can only add to
   a count, so on a discrepancy every measurement is repeated and its minimum kept. *)
let same key l =
  Mon.seen key;
  let rec go tries l =
    let lo = List.fold_left (fun a (c, _, _) -> min a c) max_int l in
    match List.find_opt (fun (c, _, _) -> c <> lo) l with
    | None -> ()
    | Some (c, _, d) ->
      if tries = 0 then begin
        let (_, _, d0) = List.find (fun (c, _, _) -> c = lo) l in
        Mon.fail "%s: %d instructions for %s but %d for %s" key lo d0 c d
      end;
      Mon.event "measurements_repeated" (List.length l);
      go (tries - 1) (List.map (fun (c, m, d) -> min c (m ()), m, d) l) in
  go 8 (List.map (fun (m, d) -> m (), m, d) l)
let time_case i g =
  let n = 1 + i mod 80 in
  let s = G.str g n in
  let res = ref false in
  let run_s a b = count (fun () -> res := string_equal a b) in
  let run_b a b = let a = Bytes.of_string a and b = Bytes.of_string b in count (fun () -> res := bytes_equal a b) in
  ignore (run_s s s); ignore (run_b s s);
  let ps = pairs g s in
  let d (a, b) = spf "%s / %s" (Mon.hex a) (Mon.hex b) in
  same (spf "string_equal different n=%d" n) (List.map (fun (a, b) -> (fun () -> run_s a b), d (a, b)) ps);
  same (spf "bytes_equal different n=%d" n) (List.map (fun (a, b) -> (fun () -> run_b a b), d (a, b)) ps);
  let cp x = String.init n (String.get x) in
  let es = [ s; G.raw g n; String.make n '\000'; String.make n '\255' ] in
  same (spf "string_equal same n=%d" n) (List.map (fun a -> (fun () -> run_s a (cp a)), Mon.hex a) es);
  same (spf "bytes_equal same n=%d" n) (List.map (fun a -> (fun () -> run_b a (cp a)), Mon.hex a) es)
let long_time_case i g =
  let n = G.pick g [| 128; 200; 255; 256; 257; 600 |] in
  let s = G.raw g n in
  let res = ref false in
  same (spf "string_equal different n=%d" n) (List.map (fun p -> let b = flip s p 1 in (fun () -> count (fun () -> res := string_equal s b)), string_of_int p) [ 0; n / 2; n - 1; G.int g n ]);
  same (spf "bytes_equal different n=%d" n) (List.map (fun p -> let a = Bytes.of_string s and b = Bytes.of_string (flip s p 1) in (fun () -> count (fun () -> res := bytes_equal a b)), string_of_int p) [ 0; n / 2; n - 1; G.int g n ])
(* checking the tag of a sealed message: the cost must not tell how much of a forged tag was right *)
let tag_case i g =
  let mk, sealed, ts, name =
    match i mod 4 with
    | 0 | 1 -> let a = if i land 1 = 0 then gcm_inst ~iv:(G.raw g 12) ~hdr:"" g else chapoly_inst ~hdr:"" g in
      a.adec, a.aref (G.raw g (G.int g 20)), 16, (if i land 1 = 0 then "gcm" else "chapoly")
    | 2 -> let k = G.raw g 16 in
      let mk () = transform_then_hash (Cipher.aes ~mode:Cipher.CTR k Cipher.Encrypt) (MAC.siphash128 (String.make 16 'k')) in
      mk, auth_transform_string (mk ()) (G.raw g 16), 16, "encrypt-then-mac"
    | _ -> let mk () = transform_and_hash (Hexa.encode ()) (MAC.aes_cmac (String.make 16 'k')) in
      let s = "0123456789abcdef" in
      (* checking the plain text against its MAC *)
      mk, (s ^ String.sub (auth_transform_string (mk ()) s) 32 16), 16, "and-mac" in
  let n = String.length sealed in
  let try_ s () =
    let r = ref None in
    Gc.full_major (); Gc.minor ();
    let s' = String.sub s 0 n in
    let t = mk () in
    let c, _ = Mon.steps (fun () -> r := auth_check_transform_string t s') in
    Mon.event "instructions_counted" c;
    (match !r with None -> () | Some _ -> if s <> sealed then Mon.fail "%s: forged tag accepted" name);
    c in
  ignore (try_ (flip sealed (n - 1) 1) ());
  same (spf "tag check %s" name)
    (List.map (fun p -> try_ (flip sealed (n - ts + p) (1 lsl G.int g 8)), spf "a tag differing at byte %d" p) [ 0; 1; 7; 8; 14; 15 ])

let f name quick thorough run = { Mon.name; quick; thorough; run }
let props = [
  "C28", [ f "exact" 4000 200000 exact_case; f "positions" 130 300 pos_case; f "long" 60 1000 long_case;
           f "count" 80 1600 time_case; f "count-long" 8 160 long_time_case; f "tag" 16 160 tag_case ];
]
