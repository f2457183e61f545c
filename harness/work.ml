(* Random well-formed and failing uses of every part of the library.  A
   scenario returns a transcript: everything the library gave back. *)
open Cryptokit
open Zoo
module G = Gen0
let spf = Printf.sprintf

(* Allocations of the harness itself are of no interest for the collection
   injector, but there is no harm in injecting there too. *)

let tx = Buffer.add_string
let guard b f = match f () with
  | () -> ()
  | exception (Mon.Violation _ as e) -> raise e
  | exception e -> tx b ("!" ^ Mon.exn_name e)

let hash_sc g b =
  let h = any_hm g in
  let o = h.hmk () in
  tx b h.hname;
  let msg = G.str g (if G.chance g 5 then G.range g 1000 9000 else G.len g 600) in
  ignore (feed_hash g o msg);
  let r = o#result in
  tx b r;
  if G.bool g then o#wipe;
  (* reference semantics is what a transcript must show *)
  (h.hname, r, h.href msg)

let drain g (t : < get_string : string; get_substring : bytes * int * int; available_output : int;
                 get_char : char; get_byte : int; .. >) out =
  match G.int g 5 with
  | 0 -> Buffer.add_string out t#get_string
  | 1 -> let (b, p, l) = t#get_substring in Buffer.add_subbytes out b p l
  | 2 -> let n = min t#available_output (G.int g 12) in
    for _ = 1 to n do Buffer.add_char out (if G.bool g then t#get_char else Char.chr t#get_byte) done
  | _ -> ()
let run_tr g (t : transform) s out =
  let pos = ref 0 in
  List.iter (fun k ->
      ignore (put_piece g t (String.sub s !pos k)); pos := !pos + k; drain g t out)
    (G.split g (String.length s));
  t#finish;
  Buffer.add_string out t#get_string
let transform_sc g b =
  let t = any_tr g in
  tx b t.tname;
  let s = t.tin g (G.len g 600) in
  let out = Buffer.create 100 in
  let o = t.tmk () in
  run_tr g o s out;
  if G.bool g then o#wipe;
  let r = Buffer.contents out in
  tx b r;
  (t.tname, r, t.tref s)
let bigtransform_sc g b =
  let t = match G.int g 3 with 0 -> cipher_tr g false | 1 -> chacha_tr g | _ -> mk_t "hexenc" Hexa.encode ref_hex (fun g n -> G.str g n) in
  let s = t.tin g (G.range g 2000 20000) in
  let out = Buffer.create 100 in
  let o = t.tmk () in
  run_tr g o s out; o#wipe;
  let r = Buffer.contents out in
  tx b r; (t.tname, r, t.tref s)
let compress_sc g b =
  let t, hdr = compress_tr g in
  let s = t.tin g (G.len g 3000) in
  let out = Buffer.create 100 in
  let o = t.tmk () in
  (* fed at once: the output of deflate is then determined *)
  o#put_string s; if G.bool g then o#flush;
  o#finish; Buffer.add_string out o#get_string; o#wipe;
  let c = Buffer.contents out in
  let u = Zlib.uncompress ~expect_zlib_header:hdr () in
  let out = Buffer.create 100 in
  run_tr g u c out;
  tx b c;
  (t.tname, Buffer.contents out, s)
let aead_sc g b =
  let a = any_aead g in
  let m = G.str g (G.len g 300) in
  let t = a.aenc () in
  let ct, tag = run_auth g t m in
  if G.bool g then t#wipe;
  tx b a.aname; tx b ct; tx b tag;
  let u = a.adec () in
  let pt, tag' = run_auth g u ct in
  u#wipe; tx b pt; tx b tag';
  (a.aname, ct ^ tag ^ pt ^ tag', a.aref m ^ m ^ tag)
let compose_auth_sc g b =
  let m = mac_i g (G.int g n_mac) in
  let key = G.str g 16 and iv = G.str g 16 in
  let s = G.str g (G.len g 200) in
  let t = (if G.bool g then transform_then_hash else transform_and_hash) (Cipher.aes ~pad:Padding.length ~iv key Cipher.Encrypt) (m.hmk ()) in
  let ct, tag = run_auth g t s in
  t#wipe; tx b ct; tx b tag;
  let c = cipher_of 0 key in
  ("compose-auth", ct, Rf.mode_apply ~e:(e c) ~d:(d c) ~bs:16 Rf.CBC ~decrypt:false ~iv (Rf.pad_length 16 s))
let raw_block_sc g b =
  let c = any_cipher g in
  let enc = block_enc c and dec = block_dec c in
  let want = Buffer.create 100 and got = Buffer.create 100 in
  for _ = 1 to 4 do
    let x = G.str g c.cbs in
    let o = G.int g 20 and o2 = G.int g 20 in
    let src = Bytes.of_string (G.raw g o ^ x ^ G.raw g (G.int g 5)) in
    let dst = Bytes.of_string (G.raw g (o2 + c.cbs + G.int g 5)) in
    let dir = G.bool g in
    (if dir then enc else dec)#transform src o dst o2;
    Buffer.add_string got (Bytes.sub_string dst o2 c.cbs);
    Buffer.add_string want ((if dir then e else d) c x)
  done;
  enc#wipe; dec#wipe;
  tx b (Buffer.contents got);
  (c.cname ^ "-raw", Buffer.contents got, Buffer.contents want)
let raw_stream_sc g b =
  let n = G.len g 300 in
  let x = G.str g n in
  let o = G.int g 20 and o2 = G.int g 20 in
  let src = Bytes.of_string (G.raw g o ^ x ^ G.raw g (G.int g 5)) in
  let dst = Bytes.of_string (G.raw g (o2 + n + G.int g 5)) in
  let key = G.str g 16 in
  let s, ks = if G.bool g then (new Stream.arcfour key :> Stream.stream_cipher), Rf.rc4 key n
    else (new Stream.chacha20 key :> Stream.stream_cipher), Rf.chacha20 key (String.make 8 '\000') 0L n in
  let k = G.int g (n + 1) in
  s#transform src o dst o2 k;
  s#transform src (o + k) dst (o2 + k) (n - k);
  s#wipe;
  let r = Bytes.sub_string dst o2 n in
  tx b r; ("stream-raw", r, Rf.xor x ks)
let rng_sc g b =
  let seed = G.raw g (G.range g 16 48) in
  let r, ref_ =
    if G.bool g then Random.pseudo_rng (String.sub seed 0 (String.length seed)),
                     (fun n -> let l = String.length seed in
                       let k = if l >= 32 then String.sub seed 0 32 else if l > 16 then seed ^ String.make (32 - l) '\000' else seed in
                       Rf.chacha20 k (String.make 8 '\000') 0L n)
    else Random.pseudo_rng_aes_ctr (String.sub seed 0 (String.length seed)),
         (fun n -> let key = String.sub seed 0 16 in
           let bl = Buffer.create 100 and c = ref (String.make 16 '\000') in
           while Buffer.length bl < n do Buffer.add_string bl (Rf.ecb 0 false key !c); c := Rf.incr_last !c 16 done;
           Buffer.sub bl 0 n) in
  let out = Buffer.create 100 in
  for _ = 1 to 5 do
    let n = G.int g 60 and o = G.int g 10 in
    let d = Bytes.make (o + n + 4) '.' in
    r#random_bytes d o n;
    Buffer.add_subbytes out d o n
  done;
  r#wipe;
  let s = Buffer.contents out in
  tx b s; ("prng", s, ref_ (String.length s))
let num s = Rf.le_num (String.init (String.length s) (fun i -> s.[String.length s - 1 - i]))
let be n z = let s = Rf.le_bytes n z in String.init n (fun i -> s.[n - 1 - i])
let rsa_sc g b =
  let rng = Random.pseudo_rng (G.raw g 32) in
  let bits = 32 * G.range g 1 8 in
  match RSA.new_key ~rng ~e:65537 bits with
  | exception (Cryptokit.Error _ as e) -> tx b (Mon.exn_name e); ("rsa", "", "")
  | priv, pub ->
  let n = num pub.RSA.n in
  let m = be (bits / 8) (Z.erem (num (G.raw g (bits / 8))) n) in
  let c = RSA.encrypt pub m in
  let p1 = RSA.decrypt priv c and p2 = RSA.decrypt_CRT priv c in
  tx b c; tx b p1;
  RSA.wipe_key priv;
  ("rsa", p1 ^ p2, m ^ m)
let dh_sc g b =
  let rng = Random.pseudo_rng (G.raw g 32) in
  let p = DH.new_parameters ~rng ~privlen:40 (64 * G.range g 1 3) in
  let a = DH.private_secret ~rng p and c = DH.private_secret ~rng p in
  let ma = DH.message p a and mc = DH.message p c in
  let s1 = DH.shared_secret p a mc and s2 = DH.shared_secret p c ma in
  tx b ma; tx b s1;
  tx b (DH.derive_key ~diversification:"x" s1 (G.int g 100));
  ("dh", s1, s2)
let paillier_sc g b =
  let rng = Random.pseudo_rng (G.raw g 32) in
  let bits = 64 * G.range g 1 3 in
  let priv, pub = Paillier.new_key ~rng bits in
  let n = num pub.Paillier.n in
  let draw () = Z.erem (num (G.raw g (bits / 8))) n in
  let a = draw () and c = draw () in
  let ea = Paillier.encrypt ~rng pub (be (bits / 8) a) and ec = Paillier.encrypt ~rng pub (be (bits / 8) c) in
  let e = Paillier.add pub ea ec in
  let d = Paillier.decrypt priv e in
  tx b ea; tx b ec; tx b e; tx b d;
  Paillier.wipe_key priv;
  ("paillier", be (bits / 8) (num d), be (bits / 8) (Z.erem (Z.add a c) n))
let xor_sc g b =
  let n = G.len g 200 in
  let o = G.int g 20 and o2 = G.int g 20 in
  let x = G.str g n and y = G.str g n in
  let d = Bytes.of_string (G.raw g o2 ^ y ^ G.raw g 3) in
  if G.bool g then xor_string (G.raw g o ^ x) o d o2 n
  else xor_bytes (Bytes.of_string (G.raw g o ^ x)) o d o2 n;
  let r = Bytes.sub_string d o2 n in
  tx b r; ("xor", r, Rf.xor x y)
let failing_sc g b =
  (* uses that end in an exception *)
  guard b (fun () -> match G.int g 10 with
      | 0 -> tx b (transform_string (Cipher.aes ~pad:Padding.length (G.str g 16) Cipher.Decrypt) (G.raw g (16 * G.range g 1 4)))
      | 1 -> tx b (transform_string (Base64.decode ()) (G.raw g (G.int g 40)))
      | 2 -> tx b (transform_string (Hexa.decode ()) (G.raw g (G.int g 40)))
      | 3 -> tx b (transform_string (Zlib.uncompress ()) (G.raw g (G.int g 200)))
      | 4 -> let s = Rf.deflate 6 true 0 (any_data g 400) in
        let k = G.int g (String.length s) in
        tx b (transform_string (Zlib.uncompress ~expect_zlib_header:true ()) (String.mapi (fun i c -> if i = k then Char.chr (Char.code c lxor 4) else c) s))
      | 5 -> ignore (Cipher.aes (G.str g (G.int g 40)) Cipher.Encrypt)
      | 6 -> ignore (Cipher.des ~iv:(G.str g (G.int g 12)) (G.str g 8) Cipher.Encrypt)
      | 7 -> tx b (transform_string (Cipher.triple_des ~mode:Cipher.ECB (G.str g 24) Cipher.Encrypt) (G.raw g (G.int g 40)))
      | 8 -> (match auth_check_transform_string ((any_aead g).adec ()) (G.raw g (G.int g 60)) with None -> tx b "none" | Some s -> tx b s)
      | _ -> let c = Cipher.blowfish ~mode:(Cipher.CTR_N 1) (G.str g 16) Cipher.Encrypt in
        c#put_string (String.make (8 * 300) 'x'); c#finish; tx b c#get_string);
  ("failing", "", "")
let scenarios = [|
  "hash", hash_sc; "transform", transform_sc; "hash", hash_sc; "transform", transform_sc; "big", bigtransform_sc;
  "compress", compress_sc; "aead", aead_sc; "aead", aead_sc; "composed-auth", compose_auth_sc; "raw-block", raw_block_sc;
  "raw-stream", raw_stream_sc; "prng", rng_sc; "xor", xor_sc; "failing", failing_sc; "hash", hash_sc; "transform", transform_sc;
  "rsa", rsa_sc; "dh", dh_sc; "paillier", paillier_sc |]
let n_sc = Array.length scenarios
(* alterations of a non-empty string *)
let corrupt g c =
  let n = String.length c in
  let at p f = String.mapi (fun i ch -> if i = p then f ch else ch) c in
  let pos () = match G.int g 4 with 0 -> G.int g (min n 4) | 1 -> n - 1 - G.int g (min n 6) | _ -> G.int g n in
  match G.int g 9 with
  | 0 | 1 -> let p = pos () in "flip", at p (fun ch -> Char.chr (Char.code ch lxor (1 lsl G.int g 8)))
  | 2 -> let p = pos () in let d = G.range g 1 255 in "byte", at p (fun ch -> Char.chr (Char.code ch lxor d))
  | 3 -> "truncated", String.sub c 0 (G.int g n)
  | 4 -> "truncated-tail", String.sub c 0 (max 0 (n - G.range g 1 8))
  | 5 -> "extended", c ^ (if G.bool g then G.raw g (G.range g 1 20) else G.pick g [| " "; "\000"; "  "; c |])
  | 6 -> let p = G.int g (n + 1) in "inserted", String.sub c 0 p ^ G.raw g (G.range g 1 3) ^ String.sub c p (n - p)
  | 7 -> let p = pos () in "deleted", String.sub c 0 p ^ String.sub c (p + 1) (n - p - 1)
  | _ -> let p = G.int g n in let k = min (n - p) (G.range g 1 20) in
    "overwritten", String.sub c 0 p ^ G.raw g k ^ String.sub c (p + k) (n - p - k)

(* ---------- first uses in a fresh process ---------- *)
(* An actor is created when called; the function it returns uses the object and judges the result.  *)
type kind = [ `Enc | `Dec | `Tr of G.t -> tinst | `Hash of G.t -> hinst | `Seal of G.t -> ainst | `Open of G.t -> ainst
            | `Sc of G.t -> Buffer.t -> string * string * string ]
let once f = let r = ref true in fun () -> if !r then begin r := false; f () end
let actor g : kind -> unit -> unit -> unit = function
  | `Enc | `Dec as k ->
    let c = any_cipher ?kind:(if G.bool g then Some 0 else None) g in
    (fun () -> let b = if k = `Enc then block_enc c else block_dec c in
      fun () ->
        let x = G.str g c.cbs in
        let o = Bytes.create c.cbs in
        b#transform (Bytes.of_string x) 0 o 0;
        Mon.check_eq (spf "cold %s %s" c.cname (if k = `Enc then "enc" else "dec")) ~got:(Bytes.to_string o) ~want:((if k = `Enc then e else d) c x))
  | `Tr t ->
    let t = t g in
    (fun () -> let o = t.tmk () in
      once (fun () ->
          let s = t.tin g (G.len g 200) in
          let out = Buffer.create 100 in
          run_tr g o s out;
          Mon.check_eq ("cold " ^ t.tname) ~got:(Buffer.contents out) ~want:(t.tref s)))
  | `Hash h ->
    let h = h g in
    (fun () -> let o = h.hmk () in
      once (fun () ->
          let s = G.str g (G.len g 300) in
          ignore (feed_hash g o s);
          let got = o#result in
          Mon.check_eq ("cold " ^ h.hname) ~got ~want:(h.href s)))
  | `Seal a ->
    let a = a g in
    (fun () -> let o = a.aenc () in
      once (fun () ->
          let s = G.str g (G.len g 200) in
          let ct, tag = run_auth g o s in
          Mon.check_eq ("cold seal " ^ a.aname) ~got:(ct ^ tag) ~want:(a.aref s)))
  | `Open a ->
    let a = a g in
    (fun () -> let o = a.adec () in
      once (fun () ->
          let s = G.str g (G.len g 200) in
          let c = a.aref s in
          Mon.check ("cold open " ^ a.aname) (auth_check_transform_string o c = Some s);
          let c = snd (corrupt g c) in
          if c <> a.aref s && String.length c >= 16 then
            Mon.check ("cold open altered " ^ a.aname) (auth_check_transform_string (a.adec ()) c = None)))
  | `Sc f ->
    (fun () -> once (fun () ->
         let what, got, want = f g (Buffer.create 100) in
         Mon.check_eq ("cold " ^ what) ~got ~want))
let cold kinds g =
  let made = ref [||] in
  let use () = if !made <> [||] then (G.pick g !made) () in
  for _ = 1 to G.range g 2 6 do
    let mk = actor g (G.pick g kinds) in
    let u = mk () in
    made := Array.append !made [| u |];
    if G.chance g 3 then use ()
  done;
  for _ = 1 to 6 do use () done;
  Array.iter (fun u -> u ()) !made
let aes_tr d g = let rec go n = let t = cipher_tr g (match d with Some d -> d | None -> G.bool g) in
                   if n = 0 || Str_find.mem "aes" t.tname then t else go (n - 1) in go 4
let cold_kinds : (string * kind array) list = [
  "C01", [| `Hash any_hash |]; "C02", [| `Hash any_hm |]; "C03", [| `Hash any_mac |];
  "C04", [| `Enc; `Dec |]; "C05", [| `Tr (aes_tr None); `Tr (aes_tr (Some true)) |]; "C06", [| `Tr (aes_tr None); `Tr (aes_tr (Some true)) |];
  "C07", [| `Tr arcfour_tr; `Tr chacha_tr; `Sc raw_stream_sc |];
  "C09", [| `Seal any_aead; `Seal (fun g -> gcm_inst g) |]; "C10", [| `Open any_aead; `Open (fun g -> gcm_inst g) |];
  "C11", [| `Tr any_tr |];
  "C16", [| `Enc; `Dec; `Tr any_tr; `Hash any_hm; `Seal any_aead; `Open any_aead; `Sc rng_sc; `Sc compress_sc |];
  "C17", [| `Enc; `Dec; `Tr (aes_tr None); `Hash any_mac; `Seal (fun g -> gcm_inst g); `Open (fun g -> gcm_inst g); `Sc rng_sc |];
  "C18", [| `Sc rng_sc |]; "C25", [| `Sc compress_sc; `Tr uncompress_tr |] ]

(* ---------- long-lived processes ---------- *)
(* [live ()] is the whole life of one object; its result must be [want] every time. *)
type life = { ln : string; live : unit -> string; want : string }
let hash_life h g =
  let msg = G.str g (G.int g 90) in
  { ln = h.hname; want = h.href msg;
    live = (fun () -> let o = h.hmk () in o#add_string msg; let r = o#result in if G.bool g then o#wipe; r) }
let tr_life t g =
  let msg = t.tin g (G.int g 60) in
  { ln = t.tname; want = t.tref msg;
    live = (fun () -> let o = t.tmk () in o#put_string msg; o#finish; let r = o#get_string in if G.bool g then o#wipe; r) }
let block_life kind dec g =
  let c = any_cipher ~kind g in
  let x = G.raw g c.cbs in
  { ln = spf "%s %s" c.cname (if dec then "dec" else "enc"); want = (if dec then d else e) c x;
    live = (fun () -> let o = Bytes.create c.cbs in
             let b = if dec then block_dec c else block_enc c in
             b#transform (Bytes.unsafe_of_string x) 0 o 0; if G.bool g then b#wipe; Bytes.unsafe_to_string o) }
let seal_life a g =
  let msg = G.str g (G.int g 60) in
  { ln = "seal " ^ a.aname; want = a.aref msg;
    live = (fun () -> let o = a.aenc () in let r = auth_transform_string o msg in if G.bool g then o#wipe; r) }
let open_life a g =
  let msg = G.str g (G.int g 60) in
  let c = a.aref msg in
  { ln = "open " ^ a.aname; want = msg;
    live = (fun () -> match auth_check_transform_string (a.adec ()) c with Some s -> s | None -> "rejected") }
let compress_life g =
  let level = G.int g 10 and hdr = G.bool g in
  let msg = any_data g (G.int g 100) in
  { ln = spf "compress l%d" level; want = msg;
    live = (fun () -> let o = Zlib.compress ~level ~write_zlib_header:hdr () in
             o#put_string msg; o#finish;
             match Rf.inflate hdr o#get_string with 0, s -> s | st, _ -> spf "status %d" st) }
let rng_life aes g =
  let seed = G.raw g 16 in
  { ln = (if aes then "aes prng" else "chacha prng");
    want = (if aes then Rf.ecb 0 false seed (String.make 16 '\000' ^ String.make 15 '\000' ^ "\001") else Rf.chacha20 seed (String.make 8 '\000') 0L 32);
    live = (fun () -> let r = if aes then Random.pseudo_rng_aes_ctr seed else Random.pseudo_rng seed in Random.string r 32) }
let blocks = Array.init 8 (fun k -> block_life (k / 2) (k land 1 = 1))
let hashes = Array.init n_hash (fun k g -> hash_life (hash_i g k) g)
let macs = Array.init n_mac (fun k g -> hash_life (mac_i g k) g)
let streams = [| (fun g -> tr_life (arcfour_tr g) g); (fun g -> tr_life (chacha_tr g) g) |]
let modes = [| (fun g -> tr_life (cipher_tr g false) g); (fun g -> tr_life (cipher_tr g true) g) |]
let seals = [| (fun g -> seal_life (gcm_inst g) g); (fun g -> seal_life (chapoly_inst g) g) |]
let opens = [| (fun g -> open_life (gcm_inst g) g); (fun g -> open_life (chapoly_inst g) g) |]
let rngs = [| rng_life true; rng_life false |]
let zlibs = [| compress_life; (fun g -> tr_life (uncompress_tr g) g) |]
let codecs = [| (fun g -> tr_life (encoder_tr g) g) |]
let wear_kinds : (string * (G.t -> life) array) list = [
  "C01", hashes; "C02", Array.append hashes macs; "C03", macs; "C04", blocks; "C05", Array.append modes modes; "C06", Array.append modes modes; "C07", streams;
  "C09", seals; "C10", opens; "C11", Array.concat [ modes; streams; codecs; zlibs ];
  "C16", Array.concat [ blocks; streams; modes; seals; opens; rngs; hashes; macs; zlibs; codecs ];
  "C17", Array.concat [ [| blocks.(0); blocks.(1) |]; [| seals.(0); opens.(0) |]; [| rngs.(0) |] ]; "C18", rngs; "C23", codecs; "C24", codecs; "C25", zlibs; "C26", zlibs ]
let wear ?(old = [||]) kinds i g =
  (* objects created before, used after *)
  let olds = if old = [||] then [] else List.init 6 (fun _ -> actor g (G.pick g old) ()) in
  let l = kinds.(i mod Array.length kinds) g in
  let n = if Mon.is_asan () then 3000 else 66_000 + G.int g 1000 in
  let t0 = Unix.gettimeofday () in
  let k = ref 0 in
  (* the time limit only bounds the cost on slow machines *)
  while !k < n && (!k land 255 <> 0 || Unix.gettimeofday () -. t0 < 20.) do
    incr k;
    let r = l.live () in
    if not (String.equal r l.want) then
      Mon.fail "%s: use number %d in this process gives %s instead of %s" l.ln !k (Mon.hex r) (Mon.hex l.want);
    if !k land 2047 = 0 then Gc.full_major ()
  done;
  Mon.event "objects_of_one_kind_in_a_row" !k;
  List.iter (fun u -> u ()) olds;
  Mon.check_eq ("wear " ^ l.ln) ~got:(l.live ()) ~want:l.want
(* thousands of objects of one kind alive at the same time *)
let crowd i g =
  let n = if Mon.is_asan () then 600 else 9000 in
  let mk : int -> (unit -> unit) * (unit -> unit) =
    let hash h =
      let m1 = G.str g (G.int g 40) and m2 = G.str g (G.int g 40) in
      (fun k -> let tag = string_of_int k in
        let o = h.hmk () in o#add_string m1; o#add_string tag;
        (fun () -> o#add_string m2), (fun () -> let got = o#result in Mon.check_eq ("crowd " ^ h.hname) ~got ~want:(h.href (m1 ^ tag ^ m2)))) in
    let tr mk name ref_ fin =
      let m1 = G.str g (16 * G.int g 4) and m2 = G.str g (16 * G.int g 4) in
      (fun k -> let tag = Printf.sprintf "%016d" k in
        let o = mk () in o#put_string m1; o#put_string tag;
        (fun () -> o#put_string m2), (fun () -> o#finish; let got = fin o#get_string in Mon.check_eq ("crowd " ^ name) ~got ~want:(ref_ (m1 ^ tag ^ m2)))) in
    match i mod 12 with
    | 0 | 1 | 2 -> hash (hash_i g ((i / 12 * 3 + i mod 12) mod n_hash))
    | 3 | 4 -> hash (mac_i g ((i / 12 * 2 + i mod 12 - 3) mod n_mac))
    | 5 -> hash (hash_i g (n_hash - 1 - i / 12 mod 4))
    | 6 -> let c = any_cipher g in let iv = any_iv g c.cbs in
      let mode = Rf.CTR in
      tr (fun () -> c.cmk ~mode:(Rf.to_ck mode) ~iv c.ckey Cipher.Encrypt) c.cname
        (fun m -> Rf.mode_apply ~e:(e c) ~d:(d c) ~bs:c.cbs mode ~decrypt:false ~iv m) (fun s -> s)
    | 7 -> let t = if i / 12 land 1 = 0 then arcfour_tr g else chacha_tr g in tr t.tmk t.tname t.tref (fun s -> s)
    | 8 -> let a = gcm_inst g in
      let m1 = G.str g (G.int g 40) in
      (fun k -> let tag = string_of_int k in
        let o = a.aenc () in o#put_string m1;
        (fun () -> o#put_string tag), (fun () -> let t = o#finish_and_get_tag in let got = o#get_string ^ t in Mon.check_eq ("crowd " ^ a.aname) ~got ~want:(a.aref (m1 ^ tag))))
    | 9 -> let a = chapoly_inst g in
      let m1 = G.str g (G.int g 40) in
      (fun k -> let tag = string_of_int k in
        let o = a.aenc () in o#put_string m1;
        (fun () -> o#put_string tag), (fun () -> let t = o#finish_and_get_tag in let got = o#get_string ^ t in Mon.check_eq ("crowd " ^ a.aname) ~got ~want:(a.aref (m1 ^ tag))))
    | 10 -> let t = uncompress_tr g in
      (fun k -> let s = t.tin g 60 in let o = t.tmk () in
        let p = G.int g (String.length s) in
        o#put_string (String.sub s 0 p);
        (fun () -> o#put_string (String.sub s p (String.length s - p))), (fun () -> o#finish; let got = o#get_string in Mon.check_eq ("crowd " ^ t.tname) ~got ~want:(t.tref s)))
    | _ -> let aes = G.bool g in
      (fun k -> let seed = Printf.sprintf "%016d" k in
        let r = if aes then Random.pseudo_rng_aes_ctr seed else Random.pseudo_rng seed in
        let a = ref "" in
        (fun () -> a := Random.string r 7), (fun () -> let got = !a ^ Random.string r 9 in
          Mon.check_eq "crowd prng" ~got ~want:(if aes then Rf.ecb 0 false seed (String.make 16 '\000') else Rf.chacha20 seed (String.make 8 '\000') 0L 16))) in
  let n = if i mod 12 = 10 then n / 4 else n in
  let objs = Array.init n mk in
  let order = Array.init n (fun k -> k) in
  let shuffle () = for k = n - 1 downto 1 do let j = G.int g (k + 1) in let t = order.(k) in order.(k) <- order.(j); order.(j) <- t done in
  if G.bool g then shuffle ();
  Array.iter (fun k -> fst objs.(k) ()) order;
  if G.bool g then shuffle ();
  Array.iter (fun k -> snd objs.(k) ()) order;
  Mon.event "objects_alive_together" n

(* ---------- neighbouring inputs ---------- *)
(* The same operation again and again, each time with one byte of one input changed: every result must be the
   one for its own inputs, whatever was computed just before. *)
let variants g s =
  let n = String.length s in
  let ps = if n <= 72 then List.init n (fun k -> k) else List.init 24 (fun k -> k) @ List.init 24 (fun _ -> G.int g n) @ List.init 24 (fun k -> n - 1 - k) in
  List.map (fun p -> String.mapi (fun j c -> if j = p then Char.chr (Char.code c lxor (1 lsl G.int g 8)) else c) s) ps
let near what g (inputs : string array) (f : string array -> string * string) =
  let go a = let got, want = f a in Mon.check_eq ("near " ^ what) ~got ~want in
  go inputs;
  Array.iteri (fun j s ->
      List.iter (fun v -> if G.chance g 3 then go inputs; go (Array.mapi (fun k x -> if k = j then v else x) inputs)) (variants g s);
      go inputs) inputs
let copy_s s = Bytes.to_string (Bytes.of_string s)
let near_hash h_of g =
  let h = h_of g in
  near h.hname g [| G.str g (G.pick g [| 1; 16; 55; 64; 70; 128; 136; 200 |]) |]
    (fun a -> hash_string (h.hmk ()) a.(0), h.href a.(0))
let near_block i g =
  let kind = i land 3 in
  let c = any_cipher ~kind g in
  let c = if kind = 3 && G.bool g then cipher_of 3 (G.str g (G.range g 40 56)) else c in
  near c.cname g [| c.ckey; G.str g c.cbs |] (fun a ->
      let c = cipher_of kind (copy_s a.(0)) in
      let o = Bytes.create (2 * c.cbs) in
      (block_enc c)#transform (Bytes.of_string a.(1)) 0 o 0; (block_dec c)#transform (Bytes.of_string a.(1)) 0 o c.cbs;
      Bytes.to_string o, e c a.(1) ^ d c a.(1))
let near_mode i g =
  let kind = i land 3 in
  let c = any_cipher ~kind g in
  let mode = any_mode g c.cbs in
  let decrypt = G.bool g in
  let u = Rf.unit_of c.cbs mode in
  near (c.cname ^ " " ^ Rf.mode_name mode) g [| c.ckey; any_iv g c.cbs; G.str g (u * G.range g 1 (max 1 (64 / u))) |] (fun a ->
      let c = cipher_of kind a.(0) in
      transform_string (c.cmk ~mode:(Rf.to_ck mode) ~iv:a.(1) a.(0) (if decrypt then Cipher.Decrypt else Cipher.Encrypt)) a.(2),
      Rf.mode_apply ~e:(e c) ~d:(d c) ~bs:c.cbs mode ~decrypt ~iv:a.(1) a.(2))
let near_stream i g =
  if i land 1 = 0 then
    near "arcfour" g [| G.str g (G.pick g [| 5; 16; 32; 256 |]); G.str g 40 |]
      (fun a -> transform_string (Cipher.arcfour (copy_s a.(0)) Cipher.Encrypt) a.(1), Rf.xor a.(1) (Rf.rc4 a.(0) 40))
  else
    let ivl = G.pick g [| 8; 8; 12 |] in
    let ctr = G.pick g [| 0L; 1L; 0xFFFFFFFFL |] in
    near "chacha20" g [| G.str g (G.pick g [| 16; 32 |]); G.str g ivl; G.str g 70 |]
      (fun a -> transform_string (Cipher.chacha20 ~iv:a.(1) ~ctr:(if ivl = 8 then ctr else 5L) (copy_s a.(0)) Cipher.Encrypt) a.(2),
                Rf.xor a.(2) (Rf.chacha20 a.(0) a.(1) (if ivl = 8 then ctr else 5L) 70))
let near_mac i g = near_hash (fun g -> mac_i g (i mod n_mac)) g
let near_mac_keys i g =
  match i mod 6 with
  | 0 -> let kl = G.pick g [| 1; 20; 63; 64; 65; 100; 128; 129; 200 |] in
    let kind, mk = G.pick g [| Rf.k_md5, (fun k -> (MAC.hmac_md5 k :> hash)); Rf.k_sha1, (fun k -> (MAC.hmac_sha1 k :> hash));
                               Rf.k_sha256, (fun k -> (MAC.hmac_sha256 k :> hash)); Rf.k_sha384, (fun k -> (MAC.hmac_sha384 k :> hash));
                               Rf.k_sha512, (fun k -> (MAC.hmac_sha512 k :> hash)); Rf.k_rmd, (fun k -> (MAC.hmac_ripemd160 k :> hash)) |] in
    near "hmac" g [| G.str g kl; G.str g 30 |] (fun a -> hash_string (mk (copy_s a.(0))) a.(1), Rf.hmac kind a.(0) a.(1))
  | 1 -> near "cmac" g [| G.str g (G.pick g [| 16; 24; 32 |]); G.str g (G.pick g [| 16; 20; 40 |]) |] (fun a -> hash_string (MAC.aes_cmac (copy_s a.(0))) a.(1), Rf.cmac a.(0) a.(1))
  | 2 -> let n = G.pick g [| 8; 16 |] in
    near "siphash" g [| G.str g 16; G.str g (G.int g 20) |] (fun a -> hash_string (if n = 8 then (MAC.siphash (copy_s a.(0)) :> hash) else (MAC.siphash128 (copy_s a.(0)) :> hash)) a.(1), Rf.siphash n a.(0) a.(1))
  | 3 -> near "blake2b mac" g [| G.str g (G.pick g [| 1; 32; 64 |]); G.str g 130 |] (fun a -> hash_string (MAC.blake2b512 (copy_s a.(0))) a.(1), Rf.digest Rf.k_b2b ~bits:512 ~key:a.(0) a.(1))
  | 4 -> near "blake2s mac" g [| G.str g (G.pick g [| 1; 16; 32 |]); G.str g 70 |] (fun a -> hash_string (MAC.blake2s256 (copy_s a.(0))) a.(1), Rf.digest Rf.k_b2s ~bits:256 ~key:a.(0) a.(1))
  | _ -> near "blake3 mac" g [| G.str g 32; G.str g 70 |] (fun a -> hash_string (MAC.blake3_256 (copy_s a.(0))) a.(1), Rf.digest Rf.k_b3 ~bits:256 ~key:a.(0) a.(1))
let near_aead i g =
  let open_ = i land 4 <> 0 in
  let gcm = i land 1 = 0 in
  near (if gcm then "gcm" else "chapoly") g
    [| G.str g (if gcm then G.pick g [| 16; 24; 32 |] else G.pick g [| 16; 32 |]); G.str g (if gcm then G.pick g [| 1; 12; 16; 20 |] else G.pick g [| 8; 12 |]);
       G.str g (G.pick g [| 0; 5; 16; 20 |]); G.str g (G.pick g [| 0; 1; 16; 33 |]) |]
    (fun a ->
       let mk dir = if gcm then AEAD.aes_gcm ~header:a.(2) ~iv:a.(1) (copy_s a.(0)) dir else AEAD.chacha20_poly1305 ~header:a.(2) ~iv:a.(1) (copy_s a.(0)) dir in
       let want = if gcm then Rf.gcm a.(0) a.(1) a.(2) a.(3) else (chapoly_inst ~key:a.(0) ~iv:a.(1) ~hdr:a.(2) g).aref a.(3) in
       if open_ then (match auth_check_transform_string (mk AEAD.Decrypt) want with Some m -> m | None -> "rejected"), a.(3)
       else auth_transform_string (mk AEAD.Encrypt) a.(3), want)
let near_rng i g =
  let aes = i land 1 = 0 in
  near "prng" g [| G.str g (if aes then 16 else G.pick g [| 16; 32 |]) |] (fun a ->
      Random.string (if aes then Random.pseudo_rng_aes_ctr a.(0) else Random.pseudo_rng a.(0)) 32,
      if aes then Rf.ecb 0 false a.(0) (String.make 16 '\000' ^ String.make 15 '\000' ^ "\001") else Rf.chacha20 a.(0) (String.make 8 '\000') 0L 32)
let near_kinds : (string * (int -> G.t -> unit)) list = [
  "C01", (fun i g -> near_hash (fun g -> hash_i g (i mod n_hash)) g); "C03", (fun i g -> if G.bool g then near_mac i g else near_mac_keys i g); "C04", near_block; "C05", near_mode;
  "C07", near_stream; "C09", (fun i g -> near_aead (i land 3) g); "C10", (fun i g -> near_aead (i lor 4) g);
  "C16", (fun i g -> match i mod 7 with 0 -> near_block (i / 7) g | 1 -> near_mode (i / 7) g | 2 -> near_stream (i / 7) g | 3 -> near_mac_keys (i / 7) g
                                      | 4 -> near_aead (i / 7) g | 5 -> near_rng (i / 7) g | _ -> near_hash any_hash g);
  "C17", (fun i g -> match i mod 3 with 0 -> near_block 0 g | 1 -> near_aead (2 * (i / 3)) g | _ -> near_rng 0 g); "C18", near_rng ]

(* ---------- entropy ---------- *)
(* [got] must consist of source bytes, in order, each used at most once,
   with no more than [slack] source bytes discarded.  [src i] is byte i of
   the source and [from, upto) what the source delivered during the call. *)
let check_source what ~slack src from upto got =
  let n = String.length got in
  Mon.seen what;
  if upto - from < n then Mon.fail "%s: %d bytes returned but the source delivered only %d" what n (upto - from);
  if upto - from = n then begin
    for i = 0 to n - 1 do
      if Char.code got.[i] <> src (from + i) then Mon.fail "%s: byte %d is not the source's byte %d (%d bytes requested)" what i i n
    done
  end else begin
    if upto - from - n > slack then Mon.fail "%s: %d source bytes discarded" what (upto - from - n);
    let p = ref from in
    for i = 0 to n - 1 do
      while !p < upto && src !p <> Char.code got.[i] do incr p done;
      if !p >= upto then Mon.fail "%s: byte %d does not come from the source in order (%d bytes requested)" what i n;
      incr p
    done
  end
