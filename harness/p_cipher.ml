(* C04 C05 C06 C07 C08: block ciphers, modes, padding, stream ciphers *)
open Cryptokit
open Zoo
module G = Gen0
let fam name quick thorough run = { Mon.name; quick; thorough; run }
let spf = Printf.sprintf

(* ---------- C04 ---------- *)
(* one raw block through [b] at random offsets, possibly in place or overlapping *)
let one_block g (b : Block.block_cipher) bs x =
  let pre = G.int g 20 and post = G.int g 20 in
  match G.int g 4 with
  | 0 ->
    let buf = Bytes.of_string (G.raw g pre ^ x ^ G.raw g post) in
    b#transform buf pre buf pre; "inplace", Bytes.sub_string buf pre bs
  | 1 ->
    let buf = Bytes.of_string (G.raw g pre ^ x ^ G.raw g (post + bs)) in
    let d = G.int g (Bytes.length buf - bs + 1) in
    b#transform buf pre buf d; (if abs (d - pre) < bs then "overlap" else "samebuf"), Bytes.sub_string buf d bs
  | _ when G.chance g 20 ->
    let near s = Bytes.of_string (G.raw g pre ^ s ^ G.raw g post), pre in
    let put ?dst s = if G.bool g then Mon.far_put ?dst g s else near s in
    let src, so = put x in
    let dst, d_o = if G.chance g 4 then src, so else put ~dst:true (G.raw g bs) in
    b#transform src so dst d_o; spf "far%b/%b" (so > 100) (d_o > 100), Bytes.sub_string dst d_o bs
  | _ ->
    let src = Bytes.of_string (G.raw g pre ^ x ^ G.raw g post) in
    let pre2 = G.int g 20 in
    let dst = Bytes.of_string (G.raw g (pre2 + bs + post)) in
    b#transform src pre dst pre2; spf "off%d/%d" (pre land 7) (pre2 land 7), Bytes.sub_string dst pre2 bs
let c04_block (c : cinst) g n =
  let be = block_enc c and bd = block_dec c in
  Mon.check (spf "%s blocksize" c.cname) (be#blocksize = c.cbs && bd#blocksize = c.cbs);
  for k = 1 to n do
    let x = G.str g c.cbs in
    let want = e c x in
    let how, y = one_block g be c.cbs x in
    Mon.check_eq (spf "%s enc %s use%d" c.cname how (min k 3)) ~got:y ~want;
    let how, z = one_block g bd c.cbs want in
    Mon.check_eq (spf "%s dec %s use%d" c.cname how (min k 3)) ~got:z ~want:x;
    let u = G.str g c.cbs in
    let how, v = one_block g bd c.cbs u in
    Mon.check_eq (spf "%s dec-any %s" c.cname how) ~got:v ~want:(d c u)
  done;
  be#wipe; bd#wipe
let c04_random i g = c04_block (any_cipher ~kind:(i land 3) g) g 8
let c04_keys i g =
  (* every key length; single-bit keys and blocks *)
  let kind = i land 3 in
  let kls = match kind with 0 -> [16;24;32] | 1 -> [8] | 2 -> [16;24] | _ -> List.init 53 (fun k -> k + 4) in
  List.iter (fun kl ->
      let key = match (i / 4) mod 3 with
        | 0 -> let b = Bytes.make kl '\000' in let p = G.int g (8 * kl) in
          Bytes.set b (p / 8) (Char.chr (1 lsl (p mod 8))); Bytes.to_string b
        | 1 -> String.make kl (Char.chr (G.int g 256))
        | _ -> G.raw g kl in
      c04_block (cipher_of kind key) g 2) kls
let c04_chain i g =
  (* Monte-Carlo style: long dependent chains on one object *)
  let c = any_cipher ~kind:(i land 3) g in
  let be = block_enc c and bd = block_dec c in
  let x = Bytes.of_string (G.str g c.cbs) in
  let start = Bytes.to_string x in
  let y = ref start in
  let n = 120 in
  for _ = 1 to n do be#transform x 0 x 0; y := e c !y done;
  Mon.check_eq (spf "%s chain%d" c.cname n) ~got:(Bytes.to_string x) ~want:!y;
  for _ = 1 to n do bd#transform x 0 x 0 done;
  Mon.check_eq (spf "%s chain back" c.cname) ~got:(Bytes.to_string x) ~want:start
let c04_bits i g =
  (* all single-bit blocks under one key *)
  let c = any_cipher ~kind:(i land 3) g in
  let be = block_enc c and bd = block_dec c in
  for p = 0 to 8 * c.cbs - 1 do
    let x = Bytes.make c.cbs '\000' in
    Bytes.set x (p / 8) (Char.chr (1 lsl (p mod 8)));
    let s = Bytes.to_string x in
    let o = Bytes.create c.cbs in
    be#transform x 0 o 0;
    Mon.check_eq (spf "%s enc bit%d" c.cname p) ~got:(Bytes.to_string o) ~want:(e c s);
    bd#transform x 0 o 0;
    Mon.check_eq (spf "%s dec bit%d" c.cname p) ~got:(Bytes.to_string o) ~want:(d c s)
  done
let c04_cipher i g =
  (* the same through the high-level constructors, ECB *)
  let c = any_cipher ~kind:(i land 3) g in
  let msg = G.str g (c.cbs * G.int g 20) in
  Mon.check_eq (spf "%s ECB enc" c.cname) ~got:(transform_string (c.cmk ~mode:Cipher.ECB c.ckey Cipher.Encrypt) msg) ~want:(e c msg);
  Mon.check_eq (spf "%s ECB dec" c.cname) ~got:(transform_string (c.cmk ~mode:Cipher.ECB c.ckey Cipher.Decrypt) msg) ~want:(d c msg)

(* ---------- C05 ---------- *)
let feed_tr g (t : transform) msg =
  let out = Buffer.create 100 in
  let pos = ref 0 in
  List.iter (fun k ->
      ignore (put_piece g t (String.sub msg !pos k)); pos := !pos + k;
      if G.chance g 3 then Buffer.add_string out t#get_string)
    (G.split g (String.length msg));
  t#finish;
  Buffer.add_string out t#get_string;
  t#wipe; Buffer.contents out
let chained c mode ?iv dir : Block.block_cipher = match (mode : Rf.mode), dir with
  | ECB, false -> block_enc c | ECB, true -> block_dec c
  | CBC, false -> new Block.cbc_encrypt ?iv (block_enc c)
  | CBC, true -> new Block.cbc_decrypt ?iv (block_dec c)
  | CFB n, false -> new Block.cfb_encrypt ?iv n (block_enc c)
  | CFB n, true -> new Block.cfb_decrypt ?iv n (block_enc c)
  | OFB n, _ -> new Block.ofb ?iv n (block_enc c)
  | CTR, _ -> new Block.ctr ?iv (block_enc c)
  | CTR_N n, _ -> new Block.ctr ?iv ~inc:n (block_enc c)
let c05_case ?mode ?iv ?(blocks = 40) g =
  let c = any_cipher g in
  let mode = match mode with Some f -> f c.cbs | None -> any_mode g c.cbs in
  let u = Rf.unit_of c.cbs mode in
  let decrypt = G.bool g in
  let iv = match iv with Some f -> Some (f c.cbs) | None -> if G.chance g 5 then None else Some (any_iv g c.cbs) in
  let iv0 = match iv with None -> String.make c.cbs '\000' | Some s -> s in
  let n = G.int g (blocks + 1) in
  let msg = G.str g (n * u) in
  let want = Rf.mode_apply ~e:(e c) ~d:(d c) ~bs:c.cbs mode ~decrypt ~iv:iv0 msg in
  let key = spf "%s %s %s %s n=%d" c.cname (Rf.mode_name mode) (if decrypt then "dec" else "enc")
      (match iv with None -> "noiv" | Some s -> if s.[c.cbs - 1] = '\255' then "iv-ff" else "iv") n in
  let dir = if decrypt then Cipher.Decrypt else Cipher.Encrypt in
  let t = if mode = Rf.CBC && G.bool g then c.cmk ?iv c.ckey dir else c.cmk ~mode:(Rf.to_ck mode) ?iv c.ckey dir in
  Mon.check_eq key ~got:(feed_tr g t msg) ~want;
  (* the block-level class *)
  let b = chained c mode ?iv decrypt in
  if b#blocksize <> u then Mon.fail "%s: blocksize %d, expected %d" key b#blocksize u;
  let out = Buffer.create 100 in
  for k = 0 to n - 1 do
    let _, y = one_block g b u (String.sub msg (k * u) u) in
    Buffer.add_string out y
  done;
  b#wipe;
  Mon.check_eq ("blk " ^ key) ~got:(Buffer.contents out) ~want
let c05_random i g = c05_case g
let c05_widths i g =
  (* every feedback/counter width *)
  let w = i / 3 in
  c05_case g ~blocks:30 ~mode:(fun bs -> let n = 1 + w mod bs in match i mod 3 with 0 -> Rf.CFB n | 1 -> OFB n | _ -> CTR_N n)
let c05_carry i g =
  (* counters that carry through k bytes *)
  let k = 1 + i mod 16 in
  c05_case g ~blocks:60
    ~mode:(fun bs -> match G.int g 3 with 0 -> Rf.CTR | 1 -> CTR_N (min bs k) | _ -> CTR_N (G.range g 1 bs))
    ~iv:(fun bs -> let k = min k bs in
          G.raw g (bs - k) ^ String.init k (fun j -> if j = k - 1 then Char.chr (G.range g 225 255) else '\255'))
let c05_long i g =
  c05_case g ~blocks:1500 ~mode:(fun bs -> match i mod 6 with 0 -> Rf.CTR | 1 -> CTR_N (G.range g 2 bs) | 2 -> CBC | 3 -> OFB (G.range g 1 bs) | 4 -> CFB (G.range g 1 bs) | _ -> ECB)

(* ---------- C06 ---------- *)
let strip_ref pn u x =
  (* Some message if the last unit carries a well-formed pad *)
  let n = String.length x in
  if n = 0 || n mod u <> 0 then None else
  if pn = "length" then begin
    let k = Char.code x.[n - 1] in
    if k = 0 || k > u then None
    else if String.sub x (n - k) k = String.make k (Char.chr k) then Some (String.sub x 0 (n - k)) else None
  end else begin
    let rec go p = if p < n - u then None else match x.[p] with
        | '\128' -> Some (String.sub x 0 p) | '\000' -> go (p - 1) | _ -> None in
    go (n - 1)
  end
let padof g = if G.bool g then "length", Padding.length else "8000", Padding._8000
let c06_round i g =
  let c = any_cipher g in
  let mode = any_mode g c.cbs in
  let u = Rf.unit_of c.cbs mode in
  let iv = if G.bool g then None else Some (any_iv g c.cbs) in
  let pn, pad = if G.chance g 4 then "nopad", None else let a, b = padof g in a, Some b in
  let lim = match mode with Rf.CTR_N 1 -> 200 * c.cbs | _ -> 400 in
  let l = min lim (if G.bool g then G.int g (4 * c.cbs + 1) else G.int g 400) in
  let l = if pn = "nopad" then l / u * u else l in
  let msg = G.str g l in
  let mode' = Rf.to_ck mode in
  let key = spf "%s %s %s len=%d" c.cname (Rf.mode_name mode) pn (if l < 3 * u then l else 1000 + l mod u) in
  let ct = feed_tr g (c.cmk ~mode:mode' ?pad ?iv c.ckey Cipher.Encrypt) msg in
  Mon.check (key ^ " ciphertext length")
    (String.length ct = if pn = "nopad" then l else (l / u + 1) * u);
  Mon.check_eq ("roundtrip " ^ key) ~got:(feed_tr g (c.cmk ~mode:mode' ?pad ?iv c.ckey Cipher.Decrypt) ct) ~want:msg;
  Mon.check_eq ("roundtrip string " ^ key)
    ~got:(transform_string (c.cmk ~mode:mode' ?pad ?iv c.ckey Cipher.Decrypt)
            (transform_string (c.cmk ~mode:mode' ?pad ?iv c.ckey Cipher.Encrypt) msg)) ~want:msg
let c06_reject_one g ?iv c mode pn pad x key =
  (* x: plaintext as it will appear after decryption *)
  let u = Rf.unit_of c.cbs mode in
  let iv0 = match iv with None -> String.make c.cbs '\000' | Some s -> s in
  let whole = String.length x / u * u in
  let ct = Rf.mode_apply ~e:(e c) ~d:(d c) ~bs:c.cbs mode ~decrypt:false ~iv:iv0 (String.sub x 0 whole)
           ^ String.sub x whole (String.length x - whole) in
  let got = Mon.catch (fun () -> feed_tr g (c.cmk ~mode:(Rf.to_ck mode) ~pad ?iv c.ckey Cipher.Decrypt) ct) in
  let want : (string, string) result = if String.length x = 0 || String.length x mod u <> 0 then Error "Wrong_data_length"
    else match strip_ref pn u x with Some m -> Ok m | None -> Error "Bad_padding" in
  Mon.seen key;
  if got <> want then
    Mon.fail "%s plaintext=%s: got %s, expected %s" key (Mon.hex x)
      (match got with Ok s -> "message " ^ Mon.hex s | Error e -> e) (match want with Ok s -> "message " ^ Mon.hex s | Error e -> e)
let c06_reject i g =
  let c = any_cipher g in
  let mode = match G.int g 4 with 0 -> any_mode g c.cbs | 1 -> Rf.ECB | _ -> Rf.CBC in
  let u = Rf.unit_of c.cbs mode in
  let iv = if G.bool g then None else Some (any_iv g c.cbs) in
  let pn, pad = padof g in
  let nb = G.int g 4 in
  let last = Bytes.of_string (G.str g u) in
  let kind = G.int g 9 in
  (match kind with
   | 0 -> ()
   | 1 | 2 | 8 -> (* well formed length pad, then damage *)
     let k = G.range g 1 u in
     Bytes.fill last (u - k) k (Char.chr k);
     if kind = 1 then (let p = u - G.range g 1 k in
                       Bytes.set last p (Char.chr ((Char.code (Bytes.get last p)) lxor (1 lsl G.int g 8))))
     else if kind = 8 then (* the byte farthest from the end *)
       Bytes.set last (u - k) (Char.chr ((Char.code (Bytes.get last (u - k))) lxor (1 + G.int g 255)))
   | 3 -> Bytes.set last (u - 1) (Char.chr (G.pick g [| 0; u; u + 1; 255; 128; 17; 9 |]))
   | 4 | 5 -> (* well formed 8000 pad, then damage *)
     let k = G.range g 1 u in
     Bytes.fill last (u - k) k '\000'; Bytes.set last (u - k) '\128';
     if kind = 5 then (let p = u - G.range g 1 k in
                       Bytes.set last p (Char.chr ((Char.code (Bytes.get last p)) lxor (1 lsl G.int g 8))))
   | 6 -> Bytes.fill last 0 u '\000'
   | _ -> (* pad reaching into the previous block *)
     Bytes.fill last 0 u (Char.chr (min 255 (u + G.range g 0 3))));
  let x = G.str g (nb * u) ^ Bytes.to_string last in
  let x = match G.int g 8 with
    | 0 -> String.sub x 0 (G.int g (String.length x + 1))
    | 1 -> "" | _ -> x in
  c06_reject_one g ?iv c mode pn pad x
    (spf "reject %s %s %s kind%d tail=%d" c.cname (Rf.mode_name mode) pn kind (String.length x mod u))
let c06_exh i g =
  (* every value of the last byte, for every damage position: AES and DES in CBC *)
  let kind = i land 1 in
  let c = any_cipher ~kind g in
  let u = c.cbs in
  let pn, pad = if i land 2 = 0 then "length", Padding.length else "8000", Padding._8000 in
  let v = (i / 4) land 255 in
  for k = 0 to u do
    let last = Bytes.of_string (G.raw g u) in
    Bytes.fill last (u - min k u) (min k u) (if pn = "length" then Char.chr v else '\000');
    if pn = "8000" && k < u then Bytes.set last (u - 1 - k) (Char.chr v);
    c06_reject_one g c Rf.CBC pn pad (Bytes.to_string last) (spf "exh %s %s v=%d k=%d" c.cname pn v k)
  done
let c06_length i g =
  (* unpadded: error exactly for non-multiples *)
  let c = any_cipher g in
  let mode = any_mode g c.cbs in
  let u = Rf.unit_of c.cbs mode in
  let l = G.int g (5 * u + 1) in
  let msg = G.str g l in
  let dirdec = G.bool g in
  let iv = G.str g c.cbs in
  let got = Mon.catch (fun () -> feed_tr g (c.cmk ~mode:(Rf.to_ck mode) ~iv c.ckey (if dirdec then Cipher.Decrypt else Encrypt)) msg) in
  let key = spf "unpadded %s %s len=%d" c.cname (Rf.mode_name mode) l in
  if l mod u <> 0 then Mon.check key (got = Error "Wrong_data_length")
  else Mon.check key (got = Ok (Rf.mode_apply ~e:(e c) ~d:(d c) ~bs:c.cbs mode ~decrypt:dirdec ~iv msg))
let c06_pads i g =
  (* the padding scheme objects themselves *)
  let bs = 1 + i mod 40 in
  let pn, p = padof g in
  for used = 0 to bs - 1 do
    let s = G.str g bs in
    let b = Bytes.of_string s in
    p#pad b used;
    let want = (if pn = "length" then Rf.pad_length bs (String.sub s 0 used) else Rf.pad_8000 bs (String.sub s 0 used)) in
    Mon.check_eq (spf "pad %s bs=%d used=%d" pn bs used) ~got:(Bytes.to_string b) ~want;
    Mon.check (spf "strip %s bs=%d used=%d" pn bs used) (p#strip b = used)
  done;
  let b = Bytes.of_string (G.str g bs) in
  let got = Mon.catch (fun () -> p#strip (Bytes.copy b)) in
  let want : (int, string) result = match strip_ref pn bs (Bytes.to_string b) with Some m -> Ok (String.length m) | None -> Error "Bad_padding" in
  Mon.check (spf "strip-any %s bs=%d" pn bs) (got = want)

(* ---------- C07 ---------- *)
let run_stream g (s : Stream.stream_cipher) msg =
  let out = Buffer.create 100 in
  let pos = ref 0 in
  List.iter (fun k ->
      let pre = G.int g 9 and post = G.int g 9 in
      let x = String.sub msg !pos k in
      (if G.chance g 20 && Mon.far_fits k then begin
          let put ?dst s = if G.bool g then Mon.far_put ?dst g s else Bytes.of_string (G.raw g pre ^ s), pre in
          let b, o = put x in
          let d, o2 = if G.chance g 4 then b, o else put ~dst:true (G.raw g k) in
          s#transform b o d o2 k; Buffer.add_subbytes out d o2 k
        end else if G.chance g 3 then begin
          let b = Bytes.of_string (G.raw g pre ^ x ^ G.raw g post) in
          s#transform b pre b pre k; Buffer.add_subbytes out b pre k
        end else begin
         let b = Bytes.of_string (G.raw g pre ^ x ^ G.raw g post) in
         let pre2 = G.int g 9 in
         let d = Bytes.create (pre2 + k + post) in
         s#transform b pre d pre2 k; Buffer.add_subbytes out d pre2 k
       end);
      pos := !pos + k) (G.split g (String.length msg));
  Buffer.contents out
let c07_one ?(len = fun g -> G.len g 1500) t g =
  let msg = G.str g (len g) in
  let want = t.tref msg in
  let lk = let l = String.length msg in if l < 70 then l else 1000 + l mod 64 in
  Mon.check_eq (spf "%s len=%d" t.tname lk) ~got:(feed_tr g (t.tmk ()) msg) ~want;
  Mon.check_eq (spf "%s back" t.tname) ~got:(feed_tr g (t.tmk ()) want) ~want:msg
let c07_arc i g =
  let t = arcfour_tr g in
  c07_one t g;
  let key = List.hd t.tsecrets in
  let msg = G.str g (G.len g 900) in
  Mon.check_eq (spf "Stream.arcfour k%d" (String.length key)) ~got:(run_stream g (new Stream.arcfour key) msg) ~want:(t.tref msg)
let c07_arckeys i g =
  let kl = 1 + i mod 256 in
  let key = G.str g kl in
  Mon.check_eq (spf "arcfour keylen=%d" kl) ~got:(transform_string (Cipher.arcfour key Cipher.Encrypt) (String.make 700 '\000')) ~want:(Rf.rc4 key 700)
let c07_cha i g =
  let t = chacha_tr g in
  c07_one t g;
  let key, iv, ctr = chacha_params g in
  let iv0 = match iv with None -> String.make 8 '\000' | Some s -> s in
  let c0 = match ctr with None -> 0L | Some c -> c in
  let msg = G.str g (G.len g 900) in
  Mon.check_eq (spf "Stream.chacha20 k%d iv%d" (String.length key) (String.length iv0))
    ~got:(run_stream g (new Stream.chacha20 ?iv ?ctr key) msg) ~want:(Rf.xor msg (Rf.chacha20 key iv0 c0 (String.length msg)))
let c07_carry i g =
  (* 64-bit block counter: carries out of every low part, also beyond 2^63 *)
  let key = G.str g (if i land 1 = 0 then 32 else 16) and iv = G.str g 8 in
  let k = 1 + i / 2 mod 63 in
  let ctr = Int64.sub (if G.bool g then Int64.shift_left 1L k else Int64.mul (Int64.of_int (G.next g)) (Int64.shift_left 1L (min k 40))) (Int64.of_int (G.range g 0 3)) in
  let msg = G.str g (G.range g 200 700) in
  Mon.check_eq (spf "chacha20 carry 2^%d" k) ~got:(feed_tr g (Cipher.chacha20 ~iv ~ctr key Cipher.Encrypt) msg)
    ~want:(Rf.xor msg (Rf.chacha20 key iv ctr (String.length msg)))
let c07_long i g =
  let t = if i land 1 = 0 then arcfour_tr g else chacha_tr g in
  c07_one t g ~len:(fun g -> G.range g 20000 200000)
let c07_positions i g =
  (* cut the stream at every position of the first blocks *)
  let t = if i land 1 = 0 then chacha_tr g else arcfour_tr g in
  let msg = G.str g 200 in
  let want = t.tref msg in
  for k = 0 to 200 do
    let x = t.tmk () in
    x#put_string (String.sub msg 0 k);
    let a = x#get_string in
    x#put_substring (Bytes.of_string msg) k (200 - k);
    x#finish;
    Mon.check_eq (spf "%s cut@%d" (if i land 1 = 0 then "chacha20" else "arcfour") k) ~got:(a ^ x#get_string) ~want
  done

(* one call on more than 2^32 bytes *)
let c07_huge i g =
  if Mon.first () then begin
    let n = (1 lsl 32) + 100 + G.int g 100 in
    let o = G.int g 9 in
    let b = Bytes.make (o + n + 8) '\000' in
    Mon.event "huge_bytes_enciphered" n;
    if i = 0 then begin
      let key = G.raw g (G.pick g [| 5; 16; 40 |]) in
      let s = new Stream.arcfour key in
      s#transform b o b o n;
      let want = Rf.rc4 key n in
      Mon.seen "arcfour on more than 2^32 bytes";
      let piece = 1 lsl 20 in
      let p = ref 0 in
      while !p < n do
        let l = min piece (n - !p) in
        if Bytes.sub_string b (o + !p) l <> String.sub want !p l then Mon.fail "arcfour: wrong within %d..%d of a call on %d bytes" !p (!p + l) n;
        p := !p + l
      done
    end else begin
      let key = G.raw g 32 and iv = G.raw g 8 in
      let c0 = Int64.of_int (G.int g 5) in
      let s = new Stream.chacha20 ~iv ~ctr:c0 key in
      s#transform b o b o n;
      let probe off len =
        let w = Rf.chacha20 key iv (Int64.add c0 (Int64.of_int (off / 64))) (len + off mod 64) in
        Mon.check_eq (spf "chacha20 on more than 2^32 bytes, at 2^%d" (int_of_float (Float.log2 (float (off + 1)))))
          ~got:(Bytes.sub_string b (o + off) len) ~want:(String.sub w (off mod 64) len) in
      probe 0 1000; probe ((1 lsl 31) - 500) 1000; probe ((1 lsl 32) - 500) (500 + n - (1 lsl 32));
      for _ = 1 to 300 do probe (G.int g (n - 70000)) (G.range g 1 70000) done
    end;
    Mon.check_eq "huge cipher call/outside" ~got:(Bytes.sub_string b 0 o ^ Bytes.sub_string b (o + n) 8) ~want:(String.make (o + 8) '\000')
  end

(* ---------- C08 ---------- *)
(* A caller-supplied block cipher of any block size: E(x) = x.  The keystream is then the sequence
   of counter blocks itself, so any reuse is directly visible. *)
class idcipher bs = object
  method blocksize = bs
  method transform (src : bytes) so (dst : bytes) d = Bytes.blit src so dst d bs
  method wipe = ()
end
let c08_direct n bs g =
  let total = 1 lsl (8 * n) in
  let iv = any_iv g bs in
  let b = new Block.ctr ~iv ~inc:n (new idcipher bs :> Block.block_cipher) in
  let zero = Bytes.make bs '\000' and dst = Bytes.create bs in
  let expect = Bytes.of_string iv in
  let incr () =
    let rec go p k = if k > 0 then begin
        let v = (Char.code (Bytes.unsafe_get expect p) + 1) land 255 in
        Bytes.unsafe_set expect p (Char.unsafe_chr v);
        if v = 0 then go (p - 1) (k - 1) end in
    go (bs - 1) n in
  let delivered = ref 0 and stop = ref false in
  while not !stop do
    match b#transform zero 0 dst 0 with
    | () ->
      if !delivered >= total then
        Mon.fail "CTR_%d (block size %d): keystream block number %d delivered, repeating an earlier one" n bs !delivered;
      if not (Bytes.equal dst expect) then
        Mon.fail "CTR_%d (block size %d): wrong keystream block number %d: %s instead of %s" n bs !delivered
          (Mon.hex (Bytes.to_string dst)) (Mon.hex (Bytes.to_string expect));
      incr (); Stdlib.incr delivered
    | exception Error Message_too_long -> stop := true
  done;
  Mon.event "ctr_blocks_watched" !delivered;
  Mon.check (spf "CTR_%d bs=%d limit (delivered 2^%d%+d)" n bs (8 * n) (!delivered - total))
    (!delivered = total || !delivered = total - 1);
  for k = 1 to G.range g 1 600 do
    match b#transform zero 0 dst 0 with
    | () -> Mon.fail "CTR_%d bs=%d: data accepted after the message-too-long error (attempt %d)" n bs k
    | exception Error Message_too_long -> Mon.seen (spf "CTR_%d refused after limit" n)
  done
let c08_high n (c : cinst) maxpiece g =
  (* through the high-level transform with a real cipher *)
  let total = 1 lsl (8 * n) in
  let bs = c.cbs in
  let iv = any_iv g bs in
  let pad = if G.chance g 3 then Some Padding.length else None in
  let t = c.cmk ~mode:(Cipher.CTR_N n) ?pad ~iv c.ckey Cipher.Encrypt in
  let msg = G.raw g (total * bs + 3 * bs) in
  let mb = Bytes.of_string msg in
  let out = Buffer.create (total * bs) in
  let pos = ref 0 and stopped = ref false in
  let drain () = Buffer.add_string out t#get_string in
  (try
     while !pos < Bytes.length mb do
       let k = min (Bytes.length mb - !pos) (G.range g 1 maxpiece) in
       (if k <= 8 then for j = !pos to !pos + k - 1 do t#put_char (Bytes.get mb j) done
        else t#put_substring mb !pos k);
       pos := !pos + k;
       if G.bool g then drain ()
     done
   with Error Message_too_long -> stopped := true);
  drain ();
  let nb = Buffer.length out / bs in
  if not !stopped then Mon.fail "CTR_%d on %s: %d blocks accepted without message-too-long" n c.cname (String.length msg / bs);
  Mon.event "ctr_blocks_watched" nb;
  Mon.check (spf "CTR_%d %s limit through transform (%d blocks)" n c.cname (nb - total)) (nb = total || nb = total - 1);
  (* what was delivered is correct, up to the largest counter *)
  let chk = min nb 3000 in
  let pre = String.sub msg 0 (chk * bs) in
  Mon.check_eq (spf "CTR_%d %s delivered prefix" n c.cname) ~got:(Buffer.sub out 0 (chk * bs))
    ~want:(Rf.mode_apply ~e:(e c) ~d:(d c) ~bs (Rf.CTR_N n) ~decrypt:false ~iv pre);
  (* further data is refused: nothing more is ever delivered, and a full block raises *)
  let refused = ref 0 in
  for _ = 1 to 20 do
    (match t#put_string (G.raw g (G.range g 1 (3 * bs))) with
     | () -> () | exception Error Message_too_long -> incr refused);
    if t#available_output > 0 then Mon.fail "CTR_%d on %s: output after the message-too-long error" n c.cname
  done;
  Mon.check (spf "CTR_%d %s refuses after limit" n c.cname) (!refused > 0);
  (match t#finish with () -> if t#available_output > 0 then Mon.fail "CTR_%d on %s: output from finish after the error" n c.cname
                      | exception Error _ -> ())
let c08_n1 i g = if i land 1 = 0 then c08_direct 1 (G.range g 1 20) g
  else c08_high 1 (any_cipher g) (G.pick g [| 5; 16; 40; 300; 5000 |]) g
let c08_n2 i g = if i land 1 = 0 then c08_direct 2 (G.range g 2 10) g else c08_high 2 (any_cipher g) 5000 g
let c08_n3 i g = c08_direct 3 (G.range g 3 5) g
let c08_n4 i g = c08_direct 4 4 g
let c08_noearly i g =
  (* wide counters must not stop early *)
  let n = 3 + i mod 14 in
  let c = if n > 8 then any_cipher ~kind:0 g else any_cipher g in
  let n = min n c.cbs in
  let iv = any_iv g c.cbs in
  let blocks = 3000 in
  let msg = String.make (blocks * c.cbs) 'x' in
  let got = Mon.catch (fun () -> feed_tr g (c.cmk ~mode:(Cipher.CTR_N n) ~iv c.ckey Cipher.Encrypt) msg) in
  match got with
  | Ok got -> Mon.check_eq (spf "CTR_%d %s %d blocks" n c.cname blocks) ~got
                ~want:(Rf.mode_apply ~e:(e c) ~d:(d c) ~bs:c.cbs (Rf.CTR_N n) ~decrypt:false ~iv msg)
  | Error e -> Mon.fail "CTR_%d %s: %s after fewer than %d blocks" n c.cname e blocks

let props = [
  "C04", [ fam "random" 30000 300000 c04_random; fam "keys" 600 8000 c04_keys; fam "chain" 3000 30000 c04_chain;
           fam "single-bits" 1800 20000 c04_bits; fam "ecb" 6000 60000 c04_cipher ];
  "C05", [ fam "random" 40000 400000 c05_random; fam "widths" 12000 100000 c05_widths; fam "carry" 12000 100000 c05_carry;
           fam "long" 800 8000 c05_long ];
  "C06", [ fam "roundtrip" 90000 500000 c06_round; fam "reject" 180000 1000000 c06_reject; fam "exhaustive" 4096 16384 c06_exh;
           fam "length" 60000 300000 c06_length; fam "pad-objects" 12000 40000 c06_pads ];
  "C07", [ fam "arcfour" 6000 100000 c07_arc; fam "arcfour-keys" 1024 8192 c07_arckeys; fam "chacha20" 12000 200000 c07_cha;
           fam "carry" 4000 60000 c07_carry; fam "long" 100 2000 c07_long; fam "positions" 80 1200 c07_positions;
           fam "huge" 2 2 c07_huge ];
  "C08", [ fam "n1" 4000 60000 c08_n1; fam "n2" 100 1000 c08_n2; fam "n3" 8 32 c08_n3; fam "n4" 0 1 c08_n4; fam "no-early-stop" 800 8000 c08_noearly ];
]
