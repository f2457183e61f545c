(* C09 C10 C11: authenticated encryption, transform streams *)
open Cryptokit
open Zoo
module G = Gen0
type ('a, 'b) result = ('a, 'b) Stdlib.result = Ok of 'a | Error of 'b
let fam name quick thorough run = { Mon.name; quick; thorough; run }
let spf = Printf.sprintf

(* ---------- C09 ---------- *)
let chk_aead g key (a : ainst) msg =
  let want = a.aref msg in
  let n = String.length msg in
  let key = spf "%s %s m%d" key a.aname (if n < 70 then n else 1000 + n mod 64) in
  let t = a.aenc () in
  if t#tag_size <> 16 then Mon.fail "%s: tag_size %d" key t#tag_size;
  let ct, tag = run_auth g t msg in
  t#wipe;
  Mon.check_eq key ~got:(ct ^ tag) ~want;
  (* decryption computes the same tag and restores the message *)
  let u = a.adec () in
  let pt, tag' = run_auth g u ct in
  u#wipe;
  Mon.check_eq (key ^ " dec") ~got:(pt ^ tag') ~want:(msg ^ tag)
let c09_random i g =
  let a = if i land 1 = 0 then gcm_inst g else chapoly_inst g in
  chk_aead g "rnd" a (G.str g (G.len g 700))
let c09_oneshot i g =
  let a = if i land 1 = 0 then gcm_inst g else chapoly_inst g in
  let msg = G.str g (G.len g 300) in
  let want = a.aref msg in
  Mon.check_eq (spf "oneshot %s" a.aname) ~got:(auth_transform_string (a.aenc ()) msg) ~want;
  let ct, tag = auth_transform_string_detached (a.aenc ()) msg in
  Mon.check_eq (spf "detached %s" a.aname) ~got:(ct ^ "|" ^ tag)
    ~want:(String.sub want 0 (String.length msg) ^ "|" ^ String.sub want (String.length msg) 16)
let c09_lengths i g =
  (* all small header/message length pairs *)
  let hl = i mod 50 in
  let mk = if (i / 50) land 1 = 0 then gcm_inst ?key:None ?iv:None else chapoly_inst ?key:None ?iv:None in
  for ml = 0 to 49 do
    let a = mk ~hdr:(G.str g hl) g in
    Mon.check_eq (spf "%s h%d m%d" (String.sub a.aname 0 5) hl ml)
      ~got:(let m = G.str g ml in if auth_transform_string (a.aenc ()) m = a.aref m then "same" else Mon.hex (auth_transform_string (a.aenc ()) m) ^ " want " ^ Mon.hex (a.aref m)) ~want:"same"
  done
let c09_ivlens i g =
  let ivl = 1 + i mod 300 in
  let a = gcm_inst ~iv:(G.str g ivl) g in
  chk_aead g "ivlen" a (G.str g (G.int g 100))
let c09_wrap i g =
  (* GCM: the 32-bit counter wraps inside the message *)
  let key = G.str g (G.pick g [| 16; 24; 32 |]) in
  let low = match i mod 4 with
    | 0 -> 0xFFFFFFFF - G.int g 12 | 1 -> 0xFFFFFF - G.int g 12 | 2 -> 0xFFFF - G.int g 12 | _ -> 0xFF - G.int g 12 in
  let hi = if G.bool g then String.make 12 '\255' else G.raw g 12 in
  let j0 = hi ^ String.init 4 (fun k -> Char.chr ((low lsr (8 * (3 - k))) land 255)) in
  let iv = Rf.gcm_iv_for_j0 key j0 in
  let a = gcm_inst ~key ~iv g in
  chk_aead g (spf "wrap%d" (i mod 4)) a (G.str g (G.range g 0 (16 * 30)))
let c09_ghash i g =
  (* GHASH operands with special shape: hash subkey fixed by key, so drive the data side *)
  let a = gcm_inst ~hdr:(String.concat "" (List.init (G.int g 5) (fun _ -> G.str g 16))) g in
  let nb = G.range g 0 12 in
  chk_aead g "ghash" a (String.concat "" (List.init nb (fun _ -> G.str g 16)))
(* Poly1305: choose the message so that the accumulator takes a given value *)
let p = Rf.p1305
let two k = Z.shift_left Z.one k
let targets g = match G.int g 14 with
  | 0 -> Z.of_int (G.int g 6)
  | 1 -> Z.sub p (Z.of_int (G.range g 1 6))
  | 2 -> Z.sub (two 128) (Z.of_int (G.range g 0 6))
  | 3 -> Z.add (two 128) (Z.of_int (G.int g 6))
  | 4 -> Z.sub (two 129) (Z.of_int (G.range g (-3) 3))
  | 5 -> Z.sub (two 130) (Z.of_int (G.range g 6 12))
  | 6 -> (* limb patterns of the 26-bit representation *)
    Z.erem (List.fold_left (fun acc k -> let l = match G.int g 3 with 0 -> 0 | 1 -> 0x3ffffff | _ -> G.int g 0x4000000 in
                             Z.add acc (Z.shift_left (Z.of_int l) (26 * k))) Z.zero [0;1;2;3;4]) p
  | 7 -> (* limb patterns of the 44-bit representation *)
    Z.erem (List.fold_left (fun acc k -> let l = match G.int g 3 with 0 -> 0 | 1 -> (1 lsl 44) - 1 | _ -> G.int g (1 lsl 44) in
                             Z.add acc (Z.shift_left (Z.of_int l) (44 * k))) Z.zero [0;1;2]) p
  | 8 -> Z.sub (two (G.range g 1 129)) Z.one
  | 9 -> two (G.range g 0 129)
  | 10 -> Z.sub p (two (G.range g 0 129))
  | 11 | 12 -> (* next to the limb boundaries of either representation *)
    Z.erem (Z.add (two (G.pick g [| 44; 44; 88; 26; 52; 78; 104; 130 |])) (Z.of_int (G.range g (-6) 10))) p
  | _ -> Z.sub p (Z.of_int (G.range g 1 200))
let c09_poly i g =
  let key = G.str g (if G.chance g 4 then 16 else 32) and iv = G.str g (if G.chance g 3 then 8 else 12) in
  let hdr = G.str g (G.pick g [| 0; 0; 16; 12; 33 |]) in
  let pk = Rf.chacha20 key iv 0L 32 in
  let r = Z.logand (Rf.le_num (String.sub pk 0 16)) Rf.clamp in
  if Z.equal r Z.zero then () else begin
    let ri = Z.invert r p in
    let nb = G.range g 2 5 in
    let blocks = Array.init nb (fun _ -> G.str g 16) in
    let lenblk = Rf.le64 (String.length hdr) ^ Rf.le64 (16 * nb) in
    let bv s = Z.add (Rf.le_num s) (two 128) in
    let acc_after data = (* accumulator after whole 16-byte blocks of data *)
      let a = ref Z.zero in
      for k = 0 to String.length data / 16 - 1 do
        a := Z.erem (Z.mul (Z.add !a (bv (String.sub data (16 * k) 16))) r) p done; !a in
    let final = i land 1 = 0 in
    let found = ref false and tries = ref 0 in
    while not !found && !tries < 60 do
      incr tries;
      blocks.(0) <- G.raw g 16;
      let tgt = targets g in
      (* wanted accumulator after the last data block *)
      let want = if final then Z.erem (Z.sub (Z.mul tgt ri) (bv lenblk)) p else tgt in
      let prev = acc_after (Rf.pad16 hdr ^ String.concat "" (Array.to_list (Array.sub blocks 0 (nb - 1)))) in
      let b = Z.erem (Z.sub (Z.sub (Z.mul want ri) prev) (two 128)) p in
      if Z.lt b (two 128) then begin
        blocks.(nb - 1) <- Rf.le_bytes 16 b; found := true;
        let chk = acc_after (Rf.pad16 hdr ^ String.concat "" (Array.to_list blocks)) in
        if not (Z.equal chk want) then failwith "HARNESS-ERROR: poly1305 target not met"
      end
    done;
    if !found then begin
      Mon.event "poly1305_steered_accumulators" 1;
      let ct = String.concat "" (Array.to_list blocks) in
      let msg = Rf.xor ct (Rf.chapoly_ks key iv (String.length ct)) in
      let a = chapoly_inst ~key ~iv ~hdr g in
      chk_aead g (if final then "poly-final" else "poly-mid") a msg
    end
  end
let c09_long i g =
  let a = if i land 1 = 0 then gcm_inst g else chapoly_inst g in
  chk_aead g "long" a (G.raw g (G.range g 5000 80000))

(* headers whose length in bits (GCM) or bytes (Poly1305) exceeds 32 bits *)
let c09_hugehdr i g =
  if Mon.first () then begin
    let n = (if i = 0 then 1 lsl 29 else 1 lsl 32) + G.range g 1 40 in
    let b = Bytes.make n '\000' in
    Bytes.blit_string (G.raw g 100) 0 b 0 100; Bytes.blit_string (G.raw g 100) 0 b (n - 100) 100;
    let header = Bytes.unsafe_to_string b in
    let key = G.raw g 32 and iv = G.raw g 12 and msg = G.raw g 45 in
    let got = if i = 0 then auth_transform_string (AEAD.aes_gcm ~header ~iv key AEAD.Encrypt) msg
      else auth_transform_string (AEAD.chacha20_poly1305 ~header ~iv key AEAD.Encrypt) msg in
    Mon.event "huge_header_bytes" n;
    Mon.check_eq (spf "%s with a header of %d bytes" (if i = 0 then "gcm" else "chapoly") n) ~got
      ~want:(if i = 0 then Rf.gcm key iv header msg else Rf.chapoly_std key iv header msg)
  end
(* messages above 2^29 bytes (2^32 bits), fed and drained in pieces *)
let c09_hugemsg i g =
  if Mon.first () then begin
    let n = (1 lsl 29) + G.range g 1 40 in
    let msg = String.make n '\000' in
    let key = G.raw g 32 and iv = G.raw g 12 and header = G.raw g 13 in
    let t : authenticated_transform = if i = 0 then AEAD.aes_gcm ~header ~iv key AEAD.Encrypt else AEAD.chacha20_poly1305 ~header ~iv key AEAD.Encrypt in
    let want = if i = 0 then Rf.gcm key iv header msg else Rf.chapoly_std key iv header msg in
    let pos = ref 0 and out = ref 0 in
    let mb = Bytes.unsafe_of_string msg in
    let drain () = let s = t#get_string in
      if s <> String.sub want !out (String.length s) then Mon.fail "%s: ciphertext of a %d-byte message wrong after byte %d" (if i = 0 then "gcm" else "chapoly") n !out;
      out := !out + String.length s in
    while !pos < n do
      let k = min (n - !pos) (G.range g 1 3_000_000) in
      t#put_substring mb !pos k; pos := !pos + k; drain ()
    done;
    let tag = t#finish_and_get_tag in
    drain ();
    Mon.event "huge_message_bytes" n;
    Mon.check "huge message: length of the ciphertext" (!out = n);
    Mon.check_eq (spf "%s tag of a message of %d bytes" (if i = 0 then "gcm" else "chapoly") n) ~got:tag ~want:(String.sub want n 16)
  end

(* ---------- C10 ---------- *)
let flip s k = let b = Bytes.of_string s in
  Bytes.set b (k / 8) (Char.chr (Char.code (Bytes.get b (k / 8)) lxor (1 lsl (k mod 8)))); Bytes.to_string b
let dec_check t s = Mon.catch (fun () -> auth_check_transform_string t s)
let expect_none key r =
  Mon.seen key;
  match r with
  | Ok None -> ()
  | Ok (Some m) -> Mon.fail "%s: altered data accepted, message %s" key (Mon.hex m)
  | Error e -> Mon.fail "%s: raised %s" key e
let len_result lt (s : string) r key =
  Mon.seen key;
  if String.length s < lt then (match r with
      | Error "Wrong_data_length" -> ()
      | Error e -> Mon.fail "%s: raised %s instead of the wrong-length error" key e
      | Ok _ -> Mon.fail "%s: input shorter than a tag was accepted" key)
  else expect_none key r
let c10_tamper i g =
  let a = if i land 1 = 0 then gcm_inst g else chapoly_inst g in
  let msg = G.str g (G.len g 200) in
  let s = auth_transform_string (a.aenc ()) msg in
  let nm = String.sub a.aname 0 3 in
  let key = spf "%s m%d" a.aname (min 40 (String.length msg)) in
  let dec ?(header = a.ahdr) ?(iv = a.aiv) ?(k = a.akey) s = dec_check (a.amk ~header ~iv ~key:k Cipher.Decrypt) s in
  Mon.seen ("genuine " ^ key);
  (match dec s with
   | Ok (Some m) when m = msg -> ()
   | Ok (Some m) -> Mon.fail "%s: genuine ciphertext decrypts to %s" key (Mon.hex m)
   | Ok None -> Mon.fail "%s: genuine ciphertext rejected" key
   | Error e -> Mon.fail "%s: genuine ciphertext raised %s" key e);
  let n = String.length s in
  (* single-bit changes *)
  for _ = 1 to 3 do
    let p = G.int g (8 * n) in
    expect_none (spf "%s bit of %s" key (if p / 8 >= n - 16 then spf "tag[%d]" (p - 8 * (n - 16)) else "ct")) (dec (flip s p))
  done;
  (* several bits of the tag *)
  let tagx = G.raw g 16 in
  let t0 = String.sub s (n - 16) 16 in
  if tagx <> t0 then expect_none (spf "%s other tag" nm) (dec (String.sub s 0 (n - 16) ^ tagx));
  (* a tag agreeing in all but one byte position, by arbitrary difference *)
  let p = G.int g 16 in
  let b = Bytes.of_string t0 in
  Bytes.set b p (Char.chr (Char.code t0.[p] lxor (1 + G.int g 255)));
  expect_none (spf "%s tag byte %d" nm p) (dec (String.sub s 0 (n - 16) ^ Bytes.to_string b));
  (* two differences that cancel under xor / sum *)
  let q = (p + 1 + G.int g 15) mod 16 in
  let dlt = 1 + G.int g 255 in
  let b = Bytes.of_string t0 in
  Bytes.set b p (Char.chr (Char.code t0.[p] lxor dlt)); Bytes.set b q (Char.chr (Char.code t0.[q] lxor dlt));
  expect_none (spf "%s tag bytes %d,%d" nm (min p q) (max p q)) (dec (String.sub s 0 (n - 16) ^ Bytes.to_string b));
  (* truncation, extension *)
  let k = G.int g n in
  let tr = String.sub s 0 k in
  len_result 16 tr (dec tr) (spf "%s truncated to %d" nm (if k < 18 then k else 99));
  expect_none (spf "%s extended" nm) (dec (s ^ G.str g (G.range g 1 20)));
  expect_none (spf "%s prefix added" nm) (dec (G.raw g (G.range g 1 17) ^ s));
  if n > 16 then begin
    let k = G.int g (n - 16) in
    expect_none (spf "%s byte removed" nm) (dec (String.sub s 0 k ^ String.sub s (k + 1) (n - k - 1)));
    (* zero padding moved between message and pad *)
    let ct = String.sub s 0 (n - 16) in
    expect_none (spf "%s zero added before tag" nm) (dec (ct ^ "\000" ^ t0))
  end;
  (* header *)
  let h = a.ahdr in
  expect_none (spf "%s header +0" nm) (dec ~header:(h ^ "\000") s);
  expect_none (spf "%s header + byte" nm) (dec ~header:(h ^ G.raw g 1) s);
  if h <> "" then begin
    let hp = G.int g (8 * String.length h) in
    expect_none (spf "%s header bit at %d of %d" nm (min 40 (hp / 8)) (min 40 (String.length h))) (dec ~header:(flip h hp) s);
    expect_none (spf "%s header cut" nm) (dec ~header:(String.sub h 0 (String.length h - 1)) s);
    expect_none (spf "%s header dropped" nm) (dec ~header:"" s)
  end;
  (* bytes moved between header and ciphertext *)
  if n > 16 && h <> "" then begin
    let j = String.length h - 1 in
    expect_none (spf "%s boundary moved" nm) (dec ~header:(String.sub h 0 j) (String.make 1 h.[j] ^ s))
  end;
  (* IV and key *)
  let ip = G.int g (8 * String.length a.aiv) in
  expect_none (spf "%s iv bit %d/%d" nm (ip / 8) (String.length a.aiv)) (dec ~iv:(flip a.aiv ip) s);
  if nm = "gcm" then expect_none "gcm iv+0" (dec ~iv:(a.aiv ^ "\000") s);
  let kp = G.int g (8 * String.length a.akey) in
  expect_none (spf "%s key bit byte %d/%d" nm (kp / 8) (String.length a.akey)) (dec ~k:(flip a.akey kp) s)
(* headers of more than 2^29 (GCM) or 2^32 bytes: alterations anywhere are noticed *)
let c10_huge i g =
  if Mon.first () then begin
    let n = (if i = 0 then 1 lsl 29 else 1 lsl 32) + G.range g 40 90 in
    let b = Bytes.make (n + 1) '\000' in
    Bytes.blit_string (G.raw g 100) 0 b 0 100; Bytes.blit_string (G.raw g 30) 0 b (n - 30) 30;
    let header = Bytes.unsafe_to_string b in
    let key = G.raw g 32 and iv = G.raw g 12 and msg = G.raw g 45 in
    let mk dir = if i = 0 then AEAD.aes_gcm ~header ~iv key dir else AEAD.chacha20_poly1305 ~header ~iv key dir in
    let name = if i = 0 then "gcm" else "chapoly" in
    let s = auth_transform_string (mk AEAD.Encrypt) msg in
    Mon.event "huge_header_bytes" n;
    (* the last byte changed, then one near the start of the part beyond the mark *)
    List.iter (fun p ->
        let c = Bytes.get b p in
        Bytes.set b p (Char.chr (Char.code c lxor (1 lsl G.int g 8)));
        expect_none (spf "%s: byte %s of a header of more than 2^%d" name (if p = n then "last" else "first beyond") (if i = 0 then 29 else 32)) (dec_check (mk AEAD.Decrypt) s);
        Bytes.set b p c) (if i = 0 then [n; 1 lsl 29; n - 20] else [n - G.int g 35]);
    match dec_check (mk AEAD.Decrypt) s with
    | Ok (Some m) when m = msg -> ()
    | _ -> Mon.fail "%s: genuine ciphertext with a header of %d bytes rejected" name (n + 1)
  end
let c10_exhaustive i g =
  (* every single bit of ciphertext, tag, header, IV, key *)
  let a = if i land 1 = 0 then gcm_inst ~hdr:(G.str g (G.int g 36)) g else chapoly_inst ~hdr:(G.str g (G.int g 36)) g in
  let msg = G.str g (G.int g 40) in
  let nm = String.sub a.aname 0 3 in
  let s = auth_transform_string (a.aenc ()) msg in
  let dec ?(header = a.ahdr) ?(iv = a.aiv) ?(k = a.akey) s = dec_check (a.amk ~header ~iv ~key:k Cipher.Decrypt) s in
  let n = String.length s in
  for p = 0 to 8 * n - 1 do expect_none (spf "x %s len%d bit%d" nm n p) (dec (flip s p)) done;
  for p = 0 to 8 * String.length a.ahdr - 1 do expect_none (spf "x %s hdr%d bit%d" nm (String.length a.ahdr) p) (dec ~header:(flip a.ahdr p) s) done;
  for p = 0 to 8 * String.length a.aiv - 1 do expect_none (spf "x %s iv%d bit%d" nm (String.length a.aiv) p) (dec ~iv:(flip a.aiv p) s) done;
  for p = 0 to 8 * String.length a.akey - 1 do expect_none (spf "x %s key bit%d" nm p) (dec ~k:(flip a.akey p) s) done;
  for k = 0 to n - 1 do
    let tr = String.sub s 0 k in
    len_result 16 tr (dec tr) (spf "x %s len%d cut to %d" nm n k) done
(* composed authenticated transforms *)
let c10_composed i g =
  (* the cipher key is independent of the MAC key: CBC with CBC-MAC under one key is forgeable by nature *)
  let kind = G.pick g [| 0; 0; 0; 1; 2; 3 |] in
  let c = cipher_of kind (G.raw g (keylen g kind)) in
  let mode = any_mode g c.cbs in
  let iv = any_iv g c.cbs in
  let pad = Padding.length in
  let m = mac_i g (G.pick g [| 0; 1; 2; 3; 4; 5; 6; 7; 8; 9; 10; 11 |]) in
  let mk2 = match m.hmk2 with Some f -> f | None -> assert false in
  let mkey = List.hd m.hsecrets in
  let msg = G.str g (G.len g 200) in
  let etm = i land 1 = 0 in
  let enc () = c.cmk ~mode:(Rf.to_ck mode) ~pad ~iv c.ckey Cipher.Encrypt in
  let decr () = c.cmk ~mode:(Rf.to_ck mode) ~pad ~iv c.ckey Cipher.Decrypt in
  let aenc () = if etm then transform_then_hash (enc ()) (mk2 mkey) else transform_and_hash (enc ()) (mk2 mkey) in
  let adec k = if etm then transform_and_hash (decr ()) (mk2 k) else transform_then_hash (decr ()) (mk2 k) in
  let key = spf "%s %s %s+%s" (if etm then "etm" else "e&m") c.cname (Rf.mode_name mode) (List.hd (String.split_on_char '/' m.hname)) in
  let u = Rf.unit_of c.cbs mode in
  let ct = Rf.mode_apply ~e:(e c) ~d:(d c) ~bs:c.cbs mode ~decrypt:false ~iv (Rf.pad_length u msg) in
  let tag = m.href (if etm then ct else msg) in
  let t = aenc () in
  if t#tag_size <> m.hsize then Mon.fail "%s: tag_size %d, MAC size %d" key t#tag_size m.hsize;
  let ct', tag' = run_auth g t msg in
  t#wipe;
  Mon.check_eq key ~got:(ct' ^ tag') ~want:(ct ^ tag);
  let s = ct ^ tag in
  Mon.check_eq (key ^ " one-shot") ~got:(auth_transform_string (aenc ()) msg) ~want:s;
  (match dec_check (adec mkey) s with
   | Ok (Some x) when x = msg -> Mon.seen (key ^ " genuine")
   | Ok (Some x) -> Mon.fail "%s: genuine data gives %s" key (Mon.hex x)
   | Ok None -> Mon.fail "%s: genuine data rejected" key
   | Error e -> Mon.fail "%s: genuine data raised %s" key e);
  (* tags of a few bytes coincide now and then: only an altered tag is then sure to be refused *)
  let bad ?(sure = m.hsize >= 8) key2 r = Mon.seen key2; match r with
    | Ok (Some x) -> if sure then Mon.fail "%s: altered data accepted, message %s" key2 (Mon.hex x)
    | Ok None | Error ("Bad_padding" | "Wrong_data_length") -> ()
    | Error e -> Mon.fail "%s: raised %s" key2 e in
  let n = String.length s and lt = m.hsize in
  for _ = 1 to 3 do bad ~sure:true (key ^ " tag bit") (dec_check (adec mkey) (flip s (8 * (n - lt) + G.int g (8 * lt)))) done;
  for _ = 1 to 3 do
    let p = G.int g (8 * (n - lt)) in
    (* e&m authenticates the message: a ciphertext change that does not change the message cannot be seen *)
    let s' = flip s p in
    let same = not etm && (match Mon.catch (fun () -> transform_string (decr ()) (String.sub s' 0 (n - lt))) with
        | Ok x -> x = msg | Error _ -> false) in
    if not same then bad (key ^ " ct bit") (dec_check (adec mkey) s')
  done;
  if mkey <> "" then bad (key ^ " mac key") (dec_check (adec (flip mkey (G.int g (8 * String.length mkey)))) s);
  let k = G.int g lt in
  (match dec_check (adec mkey) (String.sub s 0 k) with
   | Error "Wrong_data_length" -> Mon.seen (key ^ " shorter than tag")
   | Error e -> Mon.fail "%s: %d bytes (shorter than a tag) raised %s" key k e
   | Ok _ -> Mon.fail "%s: %d bytes (shorter than a tag) accepted" key k);
  bad (key ^ " extended") (dec_check (adec mkey) (s ^ G.raw g 1))

(* the same, for data that arrives in pieces: sealing and opening with any cuts agree, and an
   alteration anywhere in any piece changes the tag computed with the very same cuts *)
let c10_pieces i g =
  let composed = i mod 3 = 2 in
  let nm, enc, dec, ts =
    if composed then begin
      let key = G.raw g 16 and iv = G.raw g 16 and k2 = G.raw g 20 in
      let etm = G.bool g in
      let c = if G.bool g then Cipher.chacha20 ~iv:(String.sub iv 0 8) key else Cipher.aes ~mode:(Cipher.CFB 1) ~iv key in
      let h = if G.bool g then (fun () -> MAC.hmac_sha256 k2) else (fun () -> MAC.hmac_ripemd160 k2) in
      (if etm then "etm" else "e&m"),
      (fun () -> if etm then transform_then_hash (c Cipher.Encrypt) (h ()) else transform_and_hash (c Cipher.Encrypt) (h ())),
      (fun () -> if etm then transform_and_hash (c Cipher.Decrypt) (h ()) else transform_then_hash (c Cipher.Decrypt) (h ())),
      (h ())#hash_size
    end else begin
      let a = if i mod 3 = 0 then gcm_inst g else chapoly_inst g in
      String.sub a.aname 0 3, a.aenc, a.adec, 16
    end in
  let msg = G.str g (1 + G.len g 300) in
  let n = String.length msg in
  let run (t : authenticated_transform) cuts s =
    let out = Buffer.create 256 and pos = ref 0 in
    List.iter (fun k -> t#put_substring (Bytes.of_string (String.sub s !pos k)) 0 k; pos := !pos + k;
                if k land 1 = 0 then Buffer.add_string out t#get_string) cuts;
    let tag = t#finish_and_get_tag in
    Buffer.add_string out t#get_string; t#wipe; Buffer.contents out, tag in
  let cuts = G.split g n in
  let ct, tag = run (enc ()) (G.split g n) msg in
  if String.length tag <> ts then Mon.fail "%s: tag of %d bytes, expected %d" nm (String.length tag) ts;
  let pt, tag' = run (dec ()) cuts ct in
  let shape = String.concat "," (List.map (fun k -> string_of_int (k land 15)) (List.filteri (fun i _ -> i < 6) cuts)) in
  Mon.seen (spf "%s pieces %s genuine" nm shape);
  if pt <> msg || tag' <> tag then Mon.fail "%s: opening a genuine message in pieces of %s bytes: %s" nm
      (String.concat "," (List.map string_of_int cuts)) (if tag' <> tag then "tag refused" else "other message");
  (match dec_check (dec ()) (ct ^ tag) with
   | Ok (Some m) when m = msg -> ()
   | _ -> Mon.fail "%s: message sealed in pieces not opened in one go" nm);
  (* an alteration at the start, the end and inside of every piece *)
  let pos = ref 0 in
  List.iter (fun k ->
      if k > 0 then
        List.iter (fun (where, at) ->
            Mon.seen (spf "%s pieces %s %s" nm shape where);
            let _, tg = run (dec ()) cuts (flip ct (8 * (!pos + at) + G.int g 8)) in
            if tg = tag then Mon.fail "%s: ciphertext altered at byte %d (%s of a %d-byte piece at offset %d) has the same tag" nm (!pos + at) where k !pos)
          [ "start", 0; "end", k - 1; "inside", G.int g k ];
      pos := !pos + k) cuts
(* longer messages: alterations around block, buffer and end positions *)
let c10_long i g =
  let a = if i land 1 = 0 then gcm_inst g else chapoly_inst g in
  let nm = String.sub a.aname 0 3 in
  let n = G.range g 300 70000 in
  let msg = G.str g n in
  let s = auth_transform_string (a.aenc ()) msg in
  (match dec_check (a.adec ()) s with
   | Ok (Some m) when m = msg -> Mon.seen (spf "long %s genuine" nm)
   | _ -> Mon.fail "%s: genuine message of %d bytes not returned" nm n);
  for _ = 1 to 6 do
    let p = match G.int g 4 with
      | 0 -> 8 * n - 1 - G.int g (8 * 40)
      | 1 -> 8 * (min (n - 1) (G.int g n lor 4095)) + G.int g 8
      | 2 -> 8 * (min (n - 1) ((G.int g n / 64) * 64)) + G.int g 8
      | _ -> G.int g (8 * n) in
    expect_none (spf "long %s bit in byte %d mod 64" nm ((p / 8) land 63)) (dec_check (a.adec ()) (flip s p))
  done;
  let k = G.int g (n + 16) in
  len_result 16 (String.sub s 0 k) (dec_check (a.adec ()) (String.sub s 0 k)) (spf "long %s truncated" nm);
  (* two 16-byte blocks exchanged *)
  let b1 = G.int g (n / 16) and b2 = G.int g (n / 16) in
  let x = String.sub s (16 * b1) 16 and y = String.sub s (16 * b2) 16 in
  if x <> y then begin
    let b = Bytes.of_string s in
    Bytes.blit_string y 0 b (16 * b1) 16; Bytes.blit_string x 0 b (16 * b2) 16;
    expect_none (spf "long %s blocks exchanged" nm) (dec_check (a.adec ()) (Bytes.to_string b))
  end

(* ---------- C11 ---------- *)
(* one random history; the oracle tracks what must have come out *)
let history ?(ops = 30) ?recover g (t : transform) ~(tin : string) ~(tref : string -> string) ~unit_ ~flush ~exact ~name ~finish_ok =
  let out = Buffer.create 200 in
  let pos = ref 0 in
  let n = String.length tin in
  let shape = Buffer.create 30 in
  let expect_avail before = (* amount reported = amount delivered *)
    before in
  let take what =
    let av = expect_avail t#available_output in
    (match what with
     | 0 -> let s = t#get_string in
       if String.length s <> av then Mon.fail "%s: available_output said %d, get_string returned %d bytes" name av (String.length s);
       Buffer.add_string out s
     | 1 -> let (b, p, l) = t#get_substring in
       if l <> av then Mon.fail "%s: available_output said %d, get_substring returned %d bytes" name av l;
       Buffer.add_subbytes out b p l
     | 2 ->
       let k = min av (1 + G.int g 20) in
       for j = 1 to k do
         (if G.bool g then Buffer.add_char out t#get_char else Buffer.add_char out (Char.chr t#get_byte));
         if t#available_output <> av - j then
           Mon.fail "%s: available_output %d after taking %d of %d bytes" name t#available_output j av
       done
     | _ -> (* take everything by characters, then one more *)
       if av <= 300 then begin
         for _ = 1 to av do Buffer.add_char out t#get_char done;
         (match t#get_char with
          | _ -> Mon.fail "%s: get_char on empty output returned a character" name
          | exception End_of_file -> ());
         (match t#get_byte with
          | _ -> Mon.fail "%s: get_byte on empty output returned a byte" name
          | exception End_of_file -> ())
       end);
    if what <> 2 && what <> 3 && t#available_output <> 0 then
      Mon.fail "%s: %d bytes still available after taking everything" name t#available_output in
  let check_prefix final =
    let got = Buffer.contents out in
    if exact then begin
      let want = tref (String.sub tin 0 !pos) in
      if got <> want then Mon.fail "%s: %s after %d of %d input bytes (%s): taken %s, must be %s (first difference at %d)" name
          (if final then "total output" else "output after flush") !pos n (Buffer.contents shape) (Mon.hex got) (Mon.hex want) (Mon.first_diff got want)
    end else match recover with
      | Some f when not final && !pos > 0 ->
        let back = f got and want = String.sub tin 0 !pos in
        if back <> want then Mon.fail "%s: after a flush %d of the %d bytes put so far can be recovered from the output taken (%s)" name
            (Mon.first_diff back want) !pos (Buffer.contents shape)
      | _ -> () in
  for _ = 1 to G.range g 1 ops do
    match G.int g 8 with
    | 0 | 1 | 2 | 3 ->
      let left = n - !pos in
      let k = min left (match G.int g 5 with 0 -> 0 | 1 -> 1 | 2 -> G.int g 20 | 3 -> G.int g 300 | _ -> G.int g (left + 1)) in
      let ch = put_piece g t (String.sub tin !pos k) in
      Buffer.add_char shape ch; pos := !pos + k
    | 4 | 5 -> let w = G.int g 4 in Buffer.add_string shape (spf "g%d" w); take w
    | 6 when flush ->
      let ok = !pos mod unit_ = 0 in
      (match t#flush with
       | () ->
         Buffer.add_char shape 'f';
         if not ok then Mon.fail "%s: flush succeeded in the middle of a block (%d bytes)" name !pos;
         take 0; check_prefix false; Mon.seen (name ^ " flush")
       | exception Cryptokit.Error Wrong_data_length ->
         Buffer.add_char shape 'F';
         if ok then Mon.fail "%s: flush raised at a block boundary (%d bytes)" name !pos)
    | _ -> ()
  done;
  while !pos < n do
    let k = min (n - !pos) (G.range g 1 400) in
    Buffer.add_char shape (put_piece g t (String.sub tin !pos k)); pos := !pos + k;
    if G.chance g 3 then take (G.int g 2)
  done;
  t#finish;
  Buffer.add_char shape '.';
  if G.bool g then take 2;
  take (G.int g 2);
  Mon.seen (spf "%s %s" name (let s = Buffer.contents shape in if String.length s > 16 then String.sub s 0 16 else s));
  check_prefix true;
  Buffer.contents out
let c11_one t g =
  let tin = t.tin g (G.len g 900) in
  ignore (history g (t.tmk ()) ~tin ~tref:t.tref ~unit_:t.tunit ~flush:t.tflush ~exact:true ~name:t.tname ~finish_ok:true)
let c11_random i g = c11_one (any_tr g) g
let c11_multiline i g =
  let tin = G.str g (G.len g 900) in
  let o = history g (Base64.encode_multiline ()) ~tin ~tref:(fun m -> m) ~unit_:1 ~flush:false ~exact:false ~name:"b64multi" ~finish_ok:true in
  Mon.check_eq "b64multi" ~got:(strip_nl o) ~want:(ref_b64 true tin)
let c11_compress i g =
  let t, hdr = compress_tr g in
  let tin = any_data g (G.len g 3000) in
  (* alone, or followed by a transform that keeps positions *)
  let name, mk, undo = match G.int g 3 with
    | 0 -> let x = chacha_tr g in t.tname ^ ">chacha", (fun () -> compose (t.tmk ()) (x.tmk ())), x.tref
    | 1 -> t.tname ^ ">hex", (fun () -> compose (t.tmk ()) (Hexa.encode ())),
           (fun s -> String.init (String.length s / 2) (fun k -> Char.chr (int_of_string ("0x" ^ String.sub s (2 * k) 2))))
    | _ -> t.tname, t.tmk, (fun s -> s) in
  let o = history g (mk ()) ~recover:(fun s -> snd (Rf.inflate hdr (undo s))) ~tin ~tref:(fun m -> m) ~unit_:1 ~flush:true ~exact:false ~name ~finish_ok:true in
  let st, back = Rf.inflate hdr (undo o) in
  Mon.check_eq ("c11 " ^ name) ~got:(spf "%d:%s" st back) ~want:("0:" ^ tin)
(* composition: any inner transform whose output feeds the next one *)
let composable g n =
  (* list of transforms to chain on arbitrary input; returns maker, reference *)
  let one () = match G.int g 6 with
    | 0 -> let t = cipher_tr g false ~pad:("length", Some Padding.length) in
      (match G.int g 2 with _ -> t)
    | 1 -> arcfour_tr g | 2 -> chacha_tr g
    | 3 -> mk_t "hexenc" Hexa.encode ref_hex (fun g n -> G.str g n)
    | 4 -> mk_t "b64pad" Base64.encode_compact_pad (ref_b64 true) ~flush:false (fun g n -> G.str g n)
    | _ -> mk_t "b64" Base64.encode_compact (ref_b64 false) ~flush:false (fun g n -> G.str g n) in
  List.init n (fun _ -> one ())
let ctr1 t = (* 1-byte counter ciphers accept little data *)
  try ignore (Str_find.find t.tname "CTR_1-"); true with Not_found -> false
let c11_compose i g =
  let ts = List.filter (fun t -> not (ctr1 t)) (composable g (G.range g 2 4)) in
  match ts with
  | [] -> ()
  | t0 :: rest ->
    let mk () = List.fold_left (fun acc t -> compose acc (t.tmk ())) (t0.tmk ()) rest in
    let tref m = List.fold_left (fun m t -> t.tref m) m ts in
    let name = String.concat ">" (List.map (fun t -> List.hd (String.split_on_char '/' t.tname)) ts) in
    let flush = List.for_all (fun t -> t.tflush && t.tunit = 1) ts in
    ignore (history g (mk ()) ~tin:(G.str g (G.len g 500)) ~tref ~unit_:1 ~flush ~exact:true ~name ~finish_ok:true)
let c11_compose_inverse i g =
  (* encoder composed with its decoder, compressor with decompressor, cipher with inverse *)
  let name, tr = match G.int g 5 with
    | 0 -> "hex>unhex", compose (Hexa.encode ()) (Hexa.decode ())
    | 1 -> "b64>unb64", compose (Base64.encode_multiline ()) (Base64.decode ())
    | 2 -> let level = G.int g 10 and h = G.bool g in
      spf "compress%d>uncompress" level, compose (Zlib.compress ~level ~write_zlib_header:h ()) (Zlib.uncompress ~expect_zlib_header:h ())
    | 3 -> let c = any_cipher g in let mode = Rf.to_ck (any_mode g c.cbs) in
      let mode = match mode with CTR_N 1 -> Cipher.CTR | m -> m in
      spf "%s>inverse" (List.hd (String.split_on_char '/' c.cname)),
      compose (c.cmk ~mode ~pad:Padding.length c.ckey Cipher.Encrypt) (c.cmk ~mode ~pad:Padding.length c.ckey Cipher.Decrypt)
    | _ -> let key = G.str g 16 in "compress>aes>b64>unb64>unaes>uncompress",
                                   compose (compose (compose (compose (compose (Zlib.compress ())
                                                                         (Cipher.aes ~pad:Padding._8000 key Cipher.Encrypt)) (Base64.encode_compact ())) (Base64.decode ()))
                                              (Cipher.aes ~pad:Padding._8000 key Cipher.Decrypt)) (Zlib.uncompress ()) in
  ignore (history g tr ~tin:(any_data g (G.len g 2500)) ~tref:(fun m -> m) ~unit_:1 ~flush:false ~exact:true ~name ~finish_ok:true)
let c11_buffer i g =
  (* output buffer growth, compaction and partial consumption: one-byte inputs, slow draining *)
  let t = match G.int g 4 with
    | 0 -> mk_t "hexenc" Hexa.encode ref_hex (fun g n -> G.str g n)
    | 1 -> chacha_tr g | 2 -> cipher_tr g false ~mode:Rf.CBC ~pad:("nopad", None)
    | _ -> mk_t "b64pad" Base64.encode_compact_pad (ref_b64 true) ~flush:false (fun g n -> G.str g n) in
  let tin = t.tin g (G.range g 200 4000) in
  let tr = t.tmk () in
  let out = Buffer.create 1000 in
  let pos = ref 0 and n = String.length tin in
  let rate = G.range g 1 40 in
  while !pos < n do
    let k = min (n - !pos) (match G.int g 3 with 0 -> 1 | 1 -> G.range g 1 64 | _ -> G.range g 1 300) in
    ignore (put_piece g tr (String.sub tin !pos k)); pos := !pos + k;
    let av = tr#available_output in
    let k = min av (G.int g (rate * 4)) in
    for _ = 1 to k do Buffer.add_char out tr#get_char done
  done;
  tr#finish;
  Buffer.add_string out tr#get_string;
  Mon.check_eq (spf "slow drain %s rate%d" (List.hd (String.split_on_char '/' t.tname)) rate) ~got:(Buffer.contents out) ~want:(t.tref tin)
let c11_auth i g =
  (* the same discipline for authenticated transforms *)
  let a = any_aead g in
  let msg = G.str g (G.len g 700) in
  let want = a.aref msg in
  let t = a.aenc () in
  let out = Buffer.create 100 in
  let pos = ref 0 in
  List.iter (fun k ->
      ignore (put_piece g t (String.sub msg !pos k)); pos := !pos + k;
      let av = t#available_output in
      match G.int g 4 with
      | 0 -> let s = t#get_string in if String.length s <> av then Mon.fail "%s: available_output %d, got %d" a.aname av (String.length s);
        Buffer.add_string out s
      | 1 -> let (b, p, l) = t#get_substring in if l <> av then Mon.fail "%s: available_output %d, got %d" a.aname av l;
        Buffer.add_subbytes out b p l;
        (match t#get_char with _ -> Mon.fail "%s: get_char on empty output" a.aname | exception End_of_file -> ())
      | 2 -> for _ = 1 to min av (G.int g 30) do Buffer.add_char out t#get_char done
      | _ -> ()) (G.split g (String.length msg));
  let tag = t#finish_and_get_tag in
  let av = t#available_output in
  let s = t#get_string in
  if String.length s <> av then Mon.fail "%s: available_output %d, got %d" a.aname av (String.length s);
  Buffer.add_string out s;
  Mon.check_eq (spf "auth stream %s" a.aname) ~got:(Buffer.contents out ^ tag) ~want

let props = [
  "C09", [ fam "random" 10000 300000 c09_random; fam "one-shot" 6000 100000 c09_oneshot; fam "lengths" 100 1000 c09_lengths;
           fam "iv-lengths" 1200 12000 c09_ivlens; fam "counter-wrap" 2000 40000 c09_wrap; fam "ghash" 4000 80000 c09_ghash;
           fam "poly1305-edges" 10000 300000 c09_poly; fam "long" 60 1000 c09_long; fam "huge-header" 2 2 c09_hugehdr; fam "huge-message" 2 2 c09_hugemsg ];
  "C10", [ fam "tamper" 18000 100000 c10_tamper; fam "exhaustive-bits" 180 1200 c10_exhaustive; fam "composed" 18000 100000 c10_composed;
           fam "pieces" 12000 60000 c10_pieces; fam "long" 900 5000 c10_long; fam "huge-header" 2 2 c10_huge ];
  "C11", [ fam "random" 60000 400000 c11_random; fam "multiline" 6000 30000 c11_multiline; fam "compress" 6000 30000 c11_compress;
           fam "compose" 12000 80000 c11_compose; fam "compose-inverse" 9000 60000 c11_compose_inverse;
           fam "slow-drain" 4500 30000 c11_buffer; fam "authenticated" 12000 80000 c11_auth ];
]
