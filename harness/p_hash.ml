(* C01 C02 C03: hashes and MACs *)
open Cryptokit
open Zoo
module G = Gen0
let fam name quick thorough run = { Mon.name; quick; thorough; run }
let spf = Printf.sprintf

let lenclass blk n =
  if n = 0 then "0" else spf "%dblk+%d" (min (n / blk) 9) (n mod blk)

let one_shot ?g (h : hinst) msg =
  let o = h.hmk () in
  let size = o#hash_size in
  let r = hash_string o msg in
  Mon.check_eq (spf "%s len=%s" h.hname (lenclass h.hblk (String.length msg))) ~got:r ~want:(h.href msg);
  if size <> h.hsize || String.length r <> size then
    Mon.fail "%s: hash_size says %d, result has %d bytes, standard size %d" h.hname size (String.length r) h.hsize;
  match g with
  | None -> ()
  | Some g ->
    let o = h.hmk () in
    ignore (feed_hash g o msg);
    let got = o#result in
    o#wipe;
    Mon.check_eq (spf "%s in pieces len=%s" h.hname (lenclass h.hblk (String.length msg))) ~got ~want:(h.href msg)

(* --- C01 --- *)
let c01_lengths i g =
  (* case i: hash i mod n_hash, a window of lengths *)
  let h = hash_i g (i mod n_hash) in
  let base = (i / n_hash) * 40 in
  for l = base to base + 39 do one_shot h (G.str g l) done
let c01_sizes i g =
  (* every output size *)
  let n = 1 + i mod 64 in
  List.iter (fun l ->
      one_shot (blake2b_n n) (G.str g l);
      if n <= 32 then one_shot (blake2s_n n) (G.str g l);
      one_shot (blake3_n n) (G.str g l);
      one_shot (blake3_n (n + 64)) (G.str g l);
      one_shot (blake3_n (n * 37)) (G.str g l))
    [0; G.int g 64; 64; 65; G.len g 300; 128; 129; 1024; 1025; G.len g 3000]
let c01_random i g =
  let h = hash_i g (i mod n_hash) in
  one_shot ~g h (G.str g (if G.chance g 4 then h.hblk * G.range g 1 5 else G.len g 5000))
let c01_tree i g =
  (* long messages: deep trees for BLAKE3, long runs for the others *)
  let chunks = match G.int g 3 with 0 -> 1 lsl G.int g 9 | 1 -> G.range g 1 40 | _ -> G.range g 1 600 in
  let l = max 0 (chunks * 1024 + G.pick g [| -1; 0; 1; 64; -64; 500 |]) in
  let h = if i land 1 = 0 then blake3_n (G.pick g [| 32; 32; 64; 131 |]) else hash_i g (i / 2 mod n_hash) in
  if G.bool g then one_shot ~g h (G.raw g l) else one_shot h (G.raw g l)
(* BLAKE3 with long outputs *)
let c01_xof i g =
  let n = match i land 3 with
    | 0 -> G.range g 1 20000 | 1 -> 16384 + G.range g (-70) 300 | 2 -> G.range g 20000 300000 | _ -> (1 lsl 22) + G.range g (-100) 200 in
  let h = blake3_n n in
  one_shot h (G.raw g (G.pick g [| 0; 1; 64; 1024; 1025; 5000; G.int g 3000 |]))
let big_kinds = [|
  "sha3-256", (fun () -> Hash.sha3 256), Rf.k_sha3, 256; "ripemd160", Hash.ripemd160, Rf.k_rmd, 0;
  "blake2s256", Hash.blake2s256, Rf.k_b2s, 256; "sha256", Hash.sha256, Rf.k_sha256, 0;
  "blake3", Hash.blake3_256, Rf.k_b3, 256; "sha1", Hash.sha1, Rf.k_sha1, 0;
  "md5", Hash.md5, Rf.k_md5, 0; "sha512", Hash.sha512, Rf.k_sha512, 0;
  "blake2b512", Hash.blake2b512, Rf.k_b2b, 512;
  "sha224", Hash.sha224, Rf.k_sha224, 0; "sha384", Hash.sha384, Rf.k_sha384, 0;
  "keccak-512", (fun () -> Hash.keccak 512), Rf.k_keccak, 512;
|]
let n_big = 9
let big_buf = lazy (
  (* mostly untouched zero pages: costs no memory *)
  let n = (1 lsl 32) + 1000 in
  Bytes.create n)
let big ?want i pieces total g =
  let name, mk, kind, bits = big_kinds.(i) in
  let b = Lazy.force big_buf in
  let pre = match want with Some _ -> String.init 37 (fun k -> Char.chr (k * 7 + 3)) | None -> G.raw g 37 in
  Bytes.blit_string pre 0 b 0 37;
  let h = (mk () : hash) in
  let pos = ref 0 in
  List.iter (fun k -> let k = min k (total - !pos) in h#add_substring b !pos k; pos := !pos + k) pieces;
  assert (!pos = total);
  let r = h#result in
  h#wipe;
  Mon.event "huge_bytes_hashed" total;
  let want = match want with
    | Some w when w <> "" -> w
    | _ -> Rf.digest6 kind bits "" b 0 total in
  (match Sys.getenv_opt "VERIF_PRINT" with Some _ -> prerr_endline (spf "\"%s\", %d, \"%s\"" name total (ref_hex want)) | None -> ());
  Mon.check_eq (spf "%s huge len=%d pieces=%d" name total (List.length pieces)) ~got:r ~want
(* Reference digests of the fixed huge messages (37-byte ramp then zeros), computed once with the
   reference implementations: recomputing them would double the cost of the check. *)
let unhex s = String.init (String.length s / 2) (fun i -> Char.chr (int_of_string ("0x" ^ String.sub s (2 * i) 2)))
let huge_table = [
  "blake3", 4294967387, "c719d489d083ad6877e89167fae5232057bf518e7076c8c3d00bdb40730b017c";
  "blake2s256", 4294967387, "86f22477a6ca359a0660891dde3519891a08d13e5d9458dd74dfccf67e11a9a2";
  "blake3", 536870987, "58e23779781d208162e1f7fa0129aec313cd6e8cbeffd67f05fe087534fe9682";
  "blake2s256", 536870987, "d896ff63d57dfd8a39cdc38fb3852399d1a36b1deec64363bf0e2bcfdcb637b2";
  "sha256", 4294967387, "0966e2a1a728b6c81b294fe3adebacd678751fa4492e24eab1167c5c5eb081bb";
  "sha1", 4294967387, "89cd7660b0291865576fc4a1c035e26c191d23d4";
  "sha256", 536870987, "4637d239e3f59eac6b4c201a286254497bdba32cb8050fa45ebcc29fd0871c40";
  "ripemd160", 4294967387, "dfd4e99a444b93b2892a460dc67620420a5ae819";
  "md5", 4294967387, "ea073481dbee90394de76f5836e8835f";
  "sha1", 536870987, "c11939136a16c7393a412b6c1ad76c4bad7dfc06";
  "md5", 536870987, "6943a8e236f49dae2c720b1e03f79e79";
  "ripemd160", 536870987, "d616d434e0c578b23a35a502b1e73e9c3b8e9e7b";
  "sha3-256", 4294967387, "401487c28960482553a6dcbfc0f4e0194d3c28aa840ad8c667efe00f9cca7916";
  "sha3-256", 536870987, "5a63060ec5995b1a47b57af900386dfddca8cbf6e9854edc7a9fd42491142737";
  "blake2b512", 4294967387, "714c7219c958caa593b43af99812f55b88f4e2790daf759d2fcceb8d9302ddb0fe84e10be11138236d24ca63b1472f93dcd5446bc3ac46b87e3e2be648a9c44a";
  "sha512", 4294967387, "6ae3cef2bf2c14bcfd0292a87d91865cc79d4eacb631b5398521e9e73cc61d666e220ee402f866b5c34309e47a64824e40759511d0b320f56c6763a9308976ba";
  "blake2b512", 536870987, "d209b483fae4f15b2527180a4c76c82e9c497b88feb807f31ea2177b3d8c447931db0cf89f6db2278219a64f16fa5d3e5c7f323749ea02f93026107558a7d306";
  "sha512", 536870987, "1387af7e759b7cbf84a76bef03a219de3c9712ea5f56f623d6bda44383d9003f04b4bf20866ef3fcb20746220205ea9653d4cc727bf6cd7e41714f5c50cde2ac";
  "sha384", 4294967387, "7aa51449de298126ff93cd88212818b967089414fe31816eb18c36e13d9c570f4cd865daf3c1ae308197bb854daaa1d3";
  "sha224", 4294967387, "22329c1f8043b9a75104f6e3930ab62a7d04543eca23ab99f18143f7";
  "sha384", 536870987, "91952610ea09b0258a1a4d56a97e7e6ce0ccd26f393c59d4a0d7186061b110b4993024326444867dc8b9082e21e20c4d";
  "sha224", 536870987, "cc113cdc56a0b40f0c05e1765f91bc5c2af8ee1e1fc081e44ea8efd5";
  "keccak-512", 4294967387, "c852c9aa3860d4760273aa40d49ebb8d0cf323f6d499047471f78d024efae76c874674fbccc9a4d9c8629c466fedf18c8a69b2aba029fbc1657b58c510b46bbe";
  "keccak-512", 536870987, "655ff4a24a59d15e284513af38e7c795d46a29faa2bf1b45e1182200ad77fc4d6e3527b6ccbfb2408584dffaac0ef7bc1f3d9c5b2b625a2ee7add99717e0c249" ]
let huge_want name total = match List.find_opt (fun (n, t, _) -> n = name && t = total) huge_table with
  | Some (_, _, w) -> unhex w | None -> ""
let c01_huge i g =
  (* one piece longer than 2^32 bytes *)
  let total = (1 lsl 32) + 91 in
  let (name, _, _, _) = big_kinds.(i) in
  big ~want:(huge_want name total) i [total] total g
let c01_bits i g =
  (* total just above 2^32 bits, in several pieces *)
  let total = (1 lsl 29) + 75 in
  let (name, _, _, _) = big_kinds.(i) in
  big ~want:(huge_want name total) i [ (1 lsl 28) + 17; 5; (1 lsl 28) - 30; 100; 1000; total ] total g
let c01_huge_live i g =
  let total = (1 lsl 32) + 3 + G.int g 200 in
  big i [total] total g

(* --- C02 --- *)
let c02_split i g =
  let h = if i land 1 = 0 then hash_i g (i / 2 mod n_hash) else mac_i g (i / 2 mod n_mac) in
  let unit = match G.int g 4 with 0 -> h.hblk | 1 -> min h.hblk 64 | 2 -> 64 | _ -> 0 in
  let l = if unit > 0 && G.bool g then (if G.bool g then h.hblk * G.range g 1 (if h.hblk > 200 then 3 else 8) else unit * G.range g 1 40)
    else if G.chance g 3 then G.range g 0 (3 * h.hblk + 3) else G.len g 3000 in
  let msg = G.str g l in
  let want = if G.bool g then hash_string (h.hmk ()) msg else h.href msg in
  for _ = 1 to 3 do
    let o = h.hmk () in
    let pieces = if unit > 0 && G.bool g then Some (split_units g unit l) else None in
    let desc = feed_hash ?pieces g o msg in
    let got = o#result in
    o#wipe;
    Mon.check_eq (spf "%s split len=%s %s" h.hname (lenclass h.hblk l) (if String.length desc > 24 then String.sub desc 0 24 else desc))
      ~got ~want
  done;
  (* and the whole-message value is the standard one *)
  if not (String.equal want (h.href msg)) then
    Mon.fail "%s: whole-message result differs from the standard value" h.hname
let c02_two i g =
  (* exhaustive two-piece splits around the block size *)
  let h = if i land 1 = 0 then hash_i g (i / 2 mod n_hash) else mac_i g (i / 2 mod n_mac) in
  let blk = min h.hblk 144 in
  let l = blk + G.range g (-3) (blk + 3) in
  let l = max 1 l in
  let msg = G.raw g l in
  let b = Bytes.of_string msg in
  let want = hash_string (h.hmk ()) msg in
  for k = 0 to l do
    let o = h.hmk () in
    o#add_substring b 0 k; o#add_substring b k (l - k);
    let got = o#result in o#wipe;
    Mon.check_eq (spf "%s two-piece %d+%d" h.hname k (l - k)) ~got ~want
  done
let c02_inter i g =
  (* several objects fed in an interleaved fashion *)
  let n = G.range g 2 5 in
  let objs = Array.init n (fun _ ->
      let h = any_hm g in
      let msg = G.str g (G.len g 600) in
      h, msg, h.hmk (), ref (G.split g (String.length msg)), ref 0) in
  let live = ref n in
  while !live > 0 do
    let (h, msg, o, pieces, pos) = G.pick g objs in
    match !pieces with
    | [] -> live := Array.fold_left (fun a (_, _, _, p, _) -> if !p = [] then a else a + 1) 0 objs
    | k :: r ->
      if k <= 8 && G.bool g then for j = !pos to !pos + k - 1 do o#add_char msg.[j] done
      else o#add_string (String.sub msg !pos k);
      pos := !pos + k; pieces := r
  done;
  Array.iter (fun (h, msg, o, _, _) ->
      let got = o#result in
      Mon.check_eq (spf "%s interleaved(%d) len=%s" h.hname n (lenclass h.hblk (String.length msg))) ~got ~want:(h.href msg)) objs
let c02_long i g =
  (* long messages in irregular pieces *)
  let h = if i land 1 = 0 then hash_i g (i / 2 mod n_hash) else mac_i g (i / 2 mod n_mac) in
  let l = G.range g 5000 60000 in
  let msg = G.raw g l in
  let o = h.hmk () in
  let b = Bytes.of_string msg in
  let pos = ref 0 in
  let maxp = G.pick g [| 70; 300; 1500; 5000 |] in
  while !pos < l do
    let k = min (l - !pos) (G.range g 0 maxp) in
    o#add_substring b !pos k; pos := !pos + k
  done;
  let got = o#result in
  Mon.check_eq (spf "%s long split maxp=%d" h.hname maxp) ~got ~want:(h.href msg)
let c02_bits i g =
  (* the total passes 2^32 bits; pieces cut at random around the mark *)
  if Mon.first () then begin
    let total = (1 lsl 29) + 75 in
    let (name, _, _, _) = big_kinds.(i) in
    let at = (1 lsl 29) - G.range g 0 70 in
    let a = G.range g 0 300 in
    let pieces = match G.int g 3 with
      | 0 -> [ at; total ] | 1 -> [ a; at - a; G.int g 20; total ] | _ -> [ (1 lsl 28) + a; G.int g 100; at - (1 lsl 28) - 500; 300; total ] in
    big ~want:(huge_want name total) i pieces total g
  end
let c02_bytes i g =
  if Mon.first () then begin
    let total = (1 lsl 32) + 91 in
    let (name, _, _, _) = big_kinds.(i) in
    let a = G.range g 0 300 in
    let pieces = if G.bool g then [ a; total ] else [ a; (1 lsl 32) - 400 - a; G.int g 399; total ] in
    big ~want:(huge_want name total) i pieces total g
  end
(* SipHash over more than 2^32 bytes, cut around the mark *)
let c02_hugemac i g =
  if Mon.first () then begin
    let total = (1 lsl 32) + 300 + G.int g 100 in
    let b = Lazy.force big_buf in
    Bytes.blit_string (G.raw g 37) 0 b 0 37; Bytes.blit_string (G.raw g 50) 0 b (total - 50) 50;
    let key = G.raw g 16 in
    let h = MAC.siphash key in
    let a = G.range g 0 20 in
    h#add_substring b 0 a; h#add_substring b a (total - a - 9); h#add_substring b (total - 9) 9;
    let got = h#result in
    Mon.event "huge_bytes_hashed" total;
    let want = Rf.siphash_sub 8 key b 0 total in
    Bytes.fill b (total - 50) 50 '\000';
    Mon.check_eq "siphash of more than 2^32 bytes in pieces" ~got ~want
  end
let c02_hugesplit i g =
  (* pieces straddling the 2^32-byte mark *)
  let total = (1 lsl 32) + 500 in
  big i [ 13; (1 lsl 32) - 20; 100; total ] total g

(* --- C03 --- *)
let c03_mac i g =
  let h = mac_i g (i mod n_mac) in
  let msg = G.str g (match G.int g 5 with
      | 0 | 1 -> G.int g (3 * h.hblk + 2) | 2 -> h.hblk * G.range g 1 (if h.hblk > 200 then 2 else 6) | _ -> G.len g 1200) in
  if G.bool g then one_shot h msg else one_shot ~g h msg
(* long messages: every shape of BLAKE3 tree under a key, long runs for the others *)
let c03_long i g =
  let chunks = match G.int g 4 with 0 -> 1 lsl G.int g 9 | 1 -> (1 lsl G.int g 10) - 1 | 2 -> G.range g 1 40 | _ -> G.range g 1 700 in
  let l = max 0 (chunks * 1024 + G.pick g [| -1; 0; 1; 64; -64; 500 |]) in
  let h =
    if i land 1 = 0 then
      let n = G.pick g [| 16; 32; 32; 64; 131; 1000 |] in
      let key = G.str g 32 in
      { hname = spf "blake3 mac %d" (8 * n); hblk = 64; hsize = n;
        hsecrets = [key]; hmk2 = None; hmk = (fun () -> MAC.blake3 (8 * n) key); href = (fun m -> Rf.digest Rf.k_b3 ~bits:(8 * n) ~key m) }
    else mac_i g (i / 2 mod n_mac) in
  let l = if i land 1 = 0 then l else min l 100_000 in
  if G.bool g then one_shot ~g h (G.raw g l) else one_shot h (G.raw g l)
let c03_lengths i g =
  let h = mac_i g (i mod n_mac) in
  for l = 0 to min 300 (2 * h.hblk + 5) do one_shot h (G.str g l) done
let hm_kinds = [|
  "md5", Rf.k_md5, (fun k -> (MAC.hmac_md5 k :> hash)), 64; "sha1", Rf.k_sha1, (fun k -> (MAC.hmac_sha1 k :> hash)), 64;
  "sha256", Rf.k_sha256, (fun k -> (MAC.hmac_sha256 k :> hash)), 64; "sha384", Rf.k_sha384, (fun k -> (MAC.hmac_sha384 k :> hash)), 128;
  "sha512", Rf.k_sha512, (fun k -> (MAC.hmac_sha512 k :> hash)), 128; "ripemd160", Rf.k_rmd, (fun k -> (MAC.hmac_ripemd160 k :> hash)), 64 |]
let c03_hmackeys i g =
  (* every key length around the hash block size and beyond *)
  let name, kind, mk, blk = hm_kinds.(i mod 6) in
  for kl = 0 to 2 * blk + 4 do
    let key = G.str g kl in
    let msg = G.str g (G.int g 100) in
    Mon.check_eq (spf "hmac_%s keylen=%d" name kl) ~got:(hash_string (mk key) msg) ~want:(Rf.hmac kind key msg)
  done
let c03_blakekeys i g =
  for kl = 0 to 64 do
    let key = G.str g kl in
    let msg = G.str g (G.pick g [| 0; 1; 63; 64; 65; 127; 128; 129; 200 |]) in
    let n = G.range g 1 64 in
    Mon.check_eq (spf "blake2b mac(%d) keylen=%d" n kl) ~got:(hash_string (MAC.blake2b (8*n) key) msg)
      ~want:(Rf.digest Rf.k_b2b ~bits:(8*n) ~key msg);
    if kl <= 32 then begin
      let n = G.range g 1 32 in
      Mon.check_eq (spf "blake2s mac(%d) keylen=%d" n kl) ~got:(hash_string (MAC.blake2s (8*n) key) msg)
        ~want:(Rf.digest Rf.k_b2s ~bits:(8*n) ~key msg)
    end
  done
let c03_nopad i g =
  (* CBC-MAC without padding: exact multiples, or a length error *)
  let kind = i mod 4 in
  let c = any_cipher ~kind:(if kind = 3 then 1 else kind) g in
  let bs = c.cbs in
  let key = if kind = 3 then G.str g (G.pick g [| 16; 24 |]) else c.ckey in
  let iv = if G.bool g then None else Some (G.str g bs) in
  let iv0 = match iv with None -> String.make bs '\000' | Some s -> s in
  let mk () : hash = match kind with
    | 0 -> MAC.aes ?iv key | 1 -> MAC.des ?iv key | 2 -> MAC.triple_des ?iv key
    | _ -> MAC.des_final_triple_des ?iv key in
  let l = if G.bool g then bs * G.int g 6 else G.int g 50 in
  let msg = G.str g l in
  let r = Mon.catch (fun () -> let h = mk () in ignore (feed_hash g h msg); h#result) in
  if l mod bs <> 0 then
    Mon.check (spf "cbcmac kind %d nopad len=%d must raise Wrong_data_length" kind l) (r = Error "Wrong_data_length")
  else
    let want =
      if kind = 3 then
        let k1 = String.sub key 0 8 and k2 = String.sub key 8 8 in
        let k3 = if String.length key = 24 then String.sub key 16 8 else k1 in
        Rf.ecb 1 false k3 (Rf.ecb 1 true k2 (Rf.cbc_mac ~e:(Rf.ecb 1 false k1) ~bs:8 ~iv:iv0 msg))
      else Rf.cbc_mac ~e:(e c) ~bs ~iv:iv0 msg in
    match r with
    | Ok got -> Mon.check_eq (spf "cbcmac kind %d nopad blocks=%d" kind (l / bs)) ~got ~want
    | Error e -> Mon.fail "cbcmac kind %d nopad len=%d raised %s" kind l e
let c03_cmac_subkeys i g =
  (* both doublings with and without reduction, per key size *)
  let kl = [| 16; 24; 32 |].(i mod 3) in
  let key = G.raw g kl in
  let l0 = Rf.ecb 0 false key (String.make 16 '\000') in
  let c1 = Char.code l0.[0] land 128 and c2 = Char.code l0.[0] land 64 in
  List.iter (fun l ->
      let msg = G.raw g l in
      Mon.check_eq (spf "cmac/%d msb=%d/%d len=%d" (8*kl) c1 c2 l)
        ~got:(hash_string (MAC.aes_cmac key) msg) ~want:(Rf.cmac key msg))
    [0; 1; 15; 16; 17; 31; 32; 33; G.int g 200]

(* MACs of more than 2^32 bytes, in one piece or around the mark *)
let c03_huge i g =
  if Mon.first () then begin
    let total = (1 lsl 32) + 300 + G.int g 100 in
    let b = Lazy.force big_buf in
    Bytes.blit_string (G.raw g 37) 0 b 0 37; Bytes.blit_string (G.raw g 50) 0 b (total - 50) 50;
    let name, (h : hash), want =
      let m = lazy (Bytes.unsafe_to_string b) in ignore m;
      let key = G.raw g 16 and key32 = G.raw g 32 in
      match i with
      | 0 -> "siphash64", MAC.siphash key, (fun () -> Rf.siphash_sub 8 key b 0 total)
      | 1 -> "siphash128", MAC.siphash128 key, (fun () -> Rf.siphash_sub 16 key b 0 total)
      | 2 -> "blake2s mac", MAC.blake2s 256 key32, (fun () -> Rf.digest6 Rf.k_b2s 256 key32 b 0 total)
      | _ -> "blake3 mac", MAC.blake3 256 key32, (fun () -> Rf.digest6 Rf.k_b3 256 key32 b 0 total) in
    (if i land 1 = 0 then h#add_substring b 0 total
     else begin h#add_substring b 0 11; h#add_substring b 11 (total - 16); h#add_substring b (total - 5) 5 end);
    let got = h#result in
    Mon.event "huge_bytes_authenticated" total;
    Mon.check_eq (spf "%s of more than 2^32 bytes" name) ~got ~want:(want ())
  end

let props = [
  "C01", [ fam "lengths" (n_hash * 28) (n_hash * 110) c01_lengths; fam "output-sizes" 64 640 c01_sizes;
           fam "random" 6000 120000 c01_random; fam "tree" 700 8000 c01_tree; fam "long-outputs" 32 600 c01_xof;
           fam "huge-one-piece" n_big n_big c01_huge; fam "huge-live" 0 (Array.length big_kinds - 1) c01_huge_live;
           fam "over-2^32-bits" (Array.length big_kinds) (Array.length big_kinds) c01_bits ];
  "C02", [ fam "random-splits" 24000 600000 c02_split; fam "two-piece" 600 12000 c02_two;
           fam "interleaved" 4000 80000 c02_inter; fam "long" 1500 20000 c02_long;
           fam "over-2^32-bits" (Array.length big_kinds) (Array.length big_kinds) c02_bits;
           fam "over-2^32-bytes" n_big n_big c02_bytes; fam "over-2^32-bytes-mac" 1 1 c02_hugemac;
           fam "huge-split" 0 (Array.length big_kinds - 1) c02_hugesplit ];
  "C03", [ fam "random" 40000 800000 c03_mac; fam "lengths" 320 4000 c03_lengths; fam "long" 400 6000 c03_long;
           fam "hmac-keys" 48 600 c03_hmackeys; fam "blake-keys" 40 600 c03_blakekeys;
           fam "cbcmac-nopad" 6000 100000 c03_nopad; fam "cmac-subkeys" 1500 20000 c03_cmac_subkeys;
           fam "huge" 4 4 c03_huge ];
]
