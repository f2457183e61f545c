(* C31: the accepted parameters are exactly the documented ones *)
open Cryptokit
type ('a,'b) result = ('a,'b) Stdlib.result = Ok of 'a | Error of 'b
open Zoo
module G = Gen0
let spf = Printf.sprintf
let mem l x = List.mem x l
let between a b x = x >= a && x <= b

(* name, domain of the size parameter, validity, error ("*": any exception), constructor *)
type row = { n : string; valid : int -> bool; err : string; mk : G.t -> int -> unit }
let key n valid mk = { n; valid; err = "Wrong_key_size"; mk = (fun g l -> mk g (G.str g l)) }
let iv n valid mk = { n; valid; err = "Wrong_IV_size"; mk = (fun g l -> mk g (G.str g l)) }
let aesk = mem [16; 24; 32] and desk = mem [8] and tdesk = mem [16; 24] and bfk = between 4 56
let dir g = if G.bool g then Cipher.Encrypt else Cipher.Decrypt
let adir g = if G.bool g then AEAD.Encrypt else AEAD.Decrypt
let mode g = Rf.to_ck (any_mode g 8)
let opad g = match G.int g 3 with 0 -> None | 1 -> Some Padding.length | _ -> Some Padding._8000
let mac_use (h : hash) = h#add_string "abcdefgh12345678"; ignore h#result
let raw (c : Block.block_cipher) kind dec k g =
  let bs = c#blocksize in
  let x = G.raw g bs in
  let d = Bytes.create bs in
  c#transform (Bytes.of_string x) 0 d 0;
  Mon.check_eq (spf "accepted %s key of %d bytes selects the standard cipher" kname.(kind) (String.length k))
    ~got:(Bytes.to_string d) ~want:(Rf.ecb kind dec k x)
let keys = [|
  key "Cipher.aes" aesk (fun g k -> ignore (Cipher.aes ~mode:(mode g) ?pad:(opad g) k (dir g)));
  key "Cipher.des" desk (fun g k -> ignore (Cipher.des ~mode:(mode g) ?pad:(opad g) k (dir g)));
  key "Cipher.triple_des" tdesk (fun g k -> ignore (Cipher.triple_des ~mode:(mode g) ?pad:(opad g) k (dir g)));
  key "Cipher.blowfish" bfk (fun g k -> ignore (Cipher.blowfish ~mode:(mode g) ?pad:(opad g) k (dir g)));
  key "Cipher.arcfour" (between 1 256) (fun g k ->
      let c = Cipher.arcfour k (dir g) in
      (let got = (transform_string c (String.make 40 '\000')) in Mon.check_eq "accepted ARCfour key" ~got ~want:(Rf.rc4 k 40)));
  key "Cipher.chacha20" (mem [16; 32]) (fun g k ->
      let c = Cipher.chacha20 k (dir g) in
      (let got = (transform_string c (String.make 80 '\000')) in Mon.check_eq "accepted ChaCha20 key" ~got ~want:(Rf.chacha20 k (String.make 8 '\000') 0L 80)));
  key "Block.aes_encrypt" aesk (fun g k -> raw (new Block.aes_encrypt k) 0 false k g);
  key "Block.aes_decrypt" aesk (fun g k -> raw (new Block.aes_decrypt k) 0 true k g);
  key "Block.des_encrypt" desk (fun g k -> raw (new Block.des_encrypt k) 1 false k g);
  key "Block.des_decrypt" desk (fun g k -> raw (new Block.des_decrypt k) 1 true k g);
  key "Block.triple_des_encrypt" tdesk (fun g k -> raw (new Block.triple_des_encrypt k) 2 false k g);
  key "Block.triple_des_decrypt" tdesk (fun g k -> raw (new Block.triple_des_decrypt k) 2 true k g);
  key "Block.blowfish_encrypt" bfk (fun g k -> raw (new Block.blowfish_encrypt k) 3 false k g);
  key "Block.blowfish_decrypt" bfk (fun g k -> raw (new Block.blowfish_decrypt k) 3 true k g);
  key "Stream.arcfour" (between 1 256) (fun g k -> ignore (new Stream.arcfour k));
  key "Stream.chacha20" (mem [16; 32]) (fun g k -> ignore (new Stream.chacha20 ~iv:(G.raw g 8) k));
  key "AEAD.aes_gcm" aesk (fun g k -> ignore (AEAD.aes_gcm ~header:(G.raw g 3) ~iv:(G.raw g (G.range g 1 20)) k (adir g)));
  key "AEAD.chacha20_poly1305" (mem [16; 32]) (fun g k -> ignore (AEAD.chacha20_poly1305 ~iv:(G.raw g (G.pick g [| 8; 12 |])) k (adir g)));
  key "MAC.aes" aesk (fun g k -> mac_use (MAC.aes ?pad:(opad g) k));
  key "MAC.des" desk (fun g k -> mac_use (MAC.des ?pad:(opad g) k));
  key "MAC.triple_des" tdesk (fun g k -> mac_use (MAC.triple_des ?pad:(opad g) k));
  key "MAC.des_final_triple_des" tdesk (fun g k -> mac_use (MAC.des_final_triple_des ?pad:(opad g) k));
  key "MAC.aes_cmac" aesk (fun g k -> mac_use (MAC.aes_cmac k));
  key "MAC.siphash" (mem [16]) (fun g k -> mac_use (MAC.siphash k));
  key "MAC.siphash128" (mem [16]) (fun g k -> mac_use (MAC.siphash128 k));
  key "MAC.blake2b512" (between 0 64) (fun g k -> (let got = (hash_string (MAC.blake2b512 k) "x") in Mon.check_eq "accepted BLAKE2b key" ~got ~want:(Rf.digest Rf.k_b2b ~bits:512 ~key:k "x")));
  key "MAC.blake2b 160" (between 0 64) (fun g k -> mac_use (MAC.blake2b 160 k));
  key "MAC.blake2s256" (between 0 32) (fun g k -> (let got = (hash_string (MAC.blake2s256 k) "x") in Mon.check_eq "accepted BLAKE2s key" ~got ~want:(Rf.digest Rf.k_b2s ~bits:256 ~key:k "x")));
  key "MAC.blake2s 128" (between 0 32) (fun g k -> mac_use (MAC.blake2s 128 k));
  key "MAC.blake3_256" (mem [32]) (fun g k -> mac_use (MAC.blake3_256 k));
  key "MAC.blake3 512" (mem [32]) (fun g k -> mac_use (MAC.blake3 512 k));
  key "MAC.hmac_md5" (fun _ -> true) (fun g k -> mac_use (MAC.hmac_md5 k));
  key "MAC.hmac_sha1" (fun _ -> true) (fun g k -> mac_use (MAC.hmac_sha1 k));
  key "MAC.hmac_sha256" (fun _ -> true) (fun g k -> mac_use (MAC.hmac_sha256 k));
  key "MAC.hmac_sha384" (fun _ -> true) (fun g k -> mac_use (MAC.hmac_sha384 k));
  key "MAC.hmac_sha512" (fun _ -> true) (fun g k -> mac_use (MAC.hmac_sha512 k));
  key "MAC.hmac_ripemd160" (fun _ -> true) (fun g k -> mac_use (MAC.hmac_ripemd160 k));
  { n = "Random.pseudo_rng"; valid = (fun l -> l >= 16); err = "Seed_too_short"; mk = (fun g l -> ignore (Random.pseudo_rng (G.str g l))) };
  { n = "Random.pseudo_rng_aes_ctr"; valid = (fun l -> l >= 16); err = "Seed_too_short"; mk = (fun g l -> ignore (Random.pseudo_rng_aes_ctr (G.str g l))) };
  iv "Cipher.chacha20 iv" (mem [8; 12]) (fun g v ->
      let k = G.raw g 32 in let c = Cipher.chacha20 ~iv:v k (dir g) in
      (let got = (transform_string c (String.make 80 '\000')) in Mon.check_eq "accepted ChaCha20 IV" ~got ~want:(Rf.chacha20 k v 0L 80)));
  iv "Stream.chacha20 iv" (mem [8; 12]) (fun g v ->
      (* with a 12-byte IV the counter has 32 bits *)
      let ctr = Int64.of_int (match G.int g 4 with 0 -> 5 | 1 -> G.next g land 0xFFFF_FFFF | 2 -> 0xFFFF_FFFF - G.int g 4 | _ -> 0xFF_FFFF + G.int g 4) in
      let k = G.raw g 16 in
      let s = new Stream.chacha20 ~iv:v ~ctr k in
      let b = Bytes.make 64 '\000' in
      s#transform b 0 b 0 64;
      Mon.check_eq "accepted ChaCha20 IV and counter" ~got:(Bytes.to_string b) ~want:(Rf.chacha20 k v ctr 64));
  { n = "Cipher.chacha20 12-byte iv, counter of n bits"; valid = (fun l -> l <= 32); err = "Wrong_IV_size";
    mk = (fun g l -> if l <= 62 then begin
        let ctr = if l = 0 then 0L else Int64.of_int ((1 lsl (l - 1)) lor (G.next g land ((1 lsl (l - 1)) - 1))) in
        let k = G.raw g 32 and v = G.raw g 12 in
        let c = Cipher.chacha20 ~iv:v ~ctr k (dir g) in
        let got = transform_string c (String.make 64 '\000') in
        Mon.check_eq "accepted ChaCha20 counter" ~got ~want:(Rf.chacha20 k v ctr 64) end
        else raise (Cryptokit.Error Wrong_IV_size)) };
  iv "AEAD.chacha20_poly1305 iv" (mem [8; 12]) (fun g v -> ignore (AEAD.chacha20_poly1305 ~iv:v (G.raw g (G.pick g [| 16; 32 |])) (adir g)));
  iv "MAC.aes iv" (mem [16]) (fun g v -> mac_use (MAC.aes ~iv:v ?pad:(opad g) (G.raw g 16)));
  iv "MAC.des iv" (mem [8]) (fun g v -> mac_use (MAC.des ~iv:v ?pad:(opad g) (G.raw g 8)));
  iv "MAC.triple_des iv" (mem [8]) (fun g v -> mac_use (MAC.triple_des ~iv:v ?pad:(opad g) (G.raw g 24)));
  iv "MAC.des_final_triple_des iv" (mem [8]) (fun g v -> mac_use (MAC.des_final_triple_des ~iv:v ?pad:(opad g) (G.raw g 16)));
  iv "MAC.aes_cmac iv" (mem [16]) (fun g v -> mac_use (MAC.aes_cmac ~iv:v (G.raw g 16)));
|]
(* chaining modes: IV sizes, for the cipher functions and the classes *)
let ivmodes = [| Rf.CBC; Rf.CFB 1; Rf.CFB 8; Rf.OFB 1; Rf.OFB 8; Rf.CTR; Rf.CTR_N 1; Rf.CTR_N 4; Rf.CTR_N 8 |]
let modeivs =
  Array.concat (List.map (fun kind ->
      let bs = if kind = 0 then 16 else 8 in
      Array.concat [
        Array.map (fun m ->
            iv (spf "Cipher.%s %s iv" kname.(kind) (Rf.mode_name m)) (mem [bs]) (fun g v ->
                let c = any_cipher ~kind g in
                ignore (c.cmk ~mode:(Rf.to_ck m) ?pad:(opad g) ~iv:v c.ckey (dir g)))) ivmodes;
        Array.mapi (fun j m ->
            iv (spf "Block mode class %s over %s iv" (Rf.mode_name m) kname.(kind)) (mem [bs]) (fun g v ->
                let c = any_cipher ~kind g in
                let e = block_enc c in
                ignore (match m with
                    | Rf.CBC -> if G.bool g then (new Block.cbc_encrypt ~iv:v e :> Block.block_cipher) else (new Block.cbc_decrypt ~iv:v e :> Block.block_cipher)
                    | Rf.CFB n -> if G.bool g then (new Block.cfb_encrypt ~iv:v n e :> Block.block_cipher) else (new Block.cfb_decrypt ~iv:v n e :> Block.block_cipher)
                    | Rf.OFB n -> (new Block.ofb ~iv:v n e :> Block.block_cipher)
                    | Rf.CTR_N n -> (new Block.ctr ~iv:v ~inc:n e :> Block.block_cipher)
                    | _ -> (new Block.ctr ~iv:v e :> Block.block_cipher)))) ivmodes;
        [| iv (spf "Block.mac over %s iv" kname.(kind)) (mem [bs]) (fun g v -> ignore (new Block.mac ~iv:v ?pad:(opad g) (block_enc (any_cipher ~kind g)))) |] ])
      [0; 1; 2; 3])
let rows = Array.append keys modeivs
let judge g r l =
  let res = Mon.catch (fun () -> r.mk g l) in
  let k = spf "%s size %d" r.n l in
  Mon.seen k;
  match r.valid l, res with
  | true, Ok () -> Mon.event "accepted" 1
  | true, Error e -> Mon.fail "%s: documented size refused with %s" k e
  | false, Ok () -> Mon.fail "%s: invalid size accepted" k
  | false, Error e -> if r.err <> "*" && e <> r.err then Mon.fail "%s: raised %s instead of %s" k e r.err; Mon.event "refused" 1
let lengths_case i g =
  (* one size for all constructors *)
  Array.iter (fun r -> judge g r i) rows
let far = [| 511; 512; 513; 520; 528; 768; 1024; 1040; 4096; 4112; 65535; 65536; 65544; 65552; 65560; 65568; 65600; 65792; 1 lsl 20 + 16; 1 lsl 24 + 16; 1 lsl 24 + 8 |]
let far_case i g = judge g rows.(i mod Array.length rows) far.(i / Array.length rows mod Array.length far)

(* ---- integer parameters ---- *)
let sz n valid mk = { n; valid; err = "Wrong_key_size"; mk }
let use bits (h : hash) =
  if h#hash_size <> bits / 8 then Mon.fail "hash_size %d for %d bits" h#hash_size bits;
  let r = hash_string h "x" in if String.length r <> bits / 8 then Mon.fail "result of %d bytes for %d bits" (String.length r) bits
let std = mem [224; 256; 384; 512]
let m8 lo hi x = x >= lo && x <= hi && x land 7 = 0
let ints = [|
  sz "Hash.sha2" std (fun _ b -> use b (Hash.sha2 b));
  sz "Hash.sha3" std (fun _ b -> use b (Hash.sha3 b));
  sz "Hash.keccak" std (fun _ b -> use b (Hash.keccak b));
  sz "Hash.blake2b" (m8 8 512) (fun _ b -> use b (Hash.blake2b b));
  sz "Hash.blake2s" (m8 8 256) (fun _ b -> use b (Hash.blake2s b));
  sz "Hash.blake3" (fun b -> b > 0 && b land 7 = 0) (fun _ b -> use b (Hash.blake3 b));
  sz "MAC.blake2b" (m8 8 512) (fun g b -> use b (MAC.blake2b b (G.raw g (G.range g 0 64))));
  sz "MAC.blake2s" (m8 8 256) (fun g b -> use b (MAC.blake2s b (G.raw g (G.range g 0 32))));
  sz "MAC.blake3" (fun b -> b > 0 && b land 7 = 0) (fun g b -> use b (MAC.blake3 b (G.raw g 32)));
|]
let hostile = [| -1; -8; -16; -224; -256; -512; min_int; min_int + 8; min_int + 256; (1 lsl 32) + 256; (1 lsl 32) + 512; (1 lsl 16) + 224; max_int; max_int - 7;
                 (1 lsl 31) + 256; -(1 lsl 32) + 256; 256 + (1 lsl 40); 513; 520; 768; 1024; 65536; 65792; (1 lsl 62) + 256 |]
let big_ok r v = (* avoid huge but valid outputs *) not (r.valid v) || v < 1_000_000
let ints_case i g = Array.iter (fun r -> judge g r i) ints
let hostile_case i g =
  let r = ints.(i mod Array.length ints) in
  Array.iter (fun v -> if big_ok r v then judge g r v) hostile;
  for _ = 1 to 30 do
    let v = match G.int g 3 with 0 -> G.range g (-3000) 3000 | 1 -> G.next g | _ -> 8 * G.range g (-100) 300 in
    if big_ok r v then judge g r v
  done
(* widths of CFB, OFB and counter fields *)
let width_case i g =
  let kind = i land 3 in
  let bs = if kind = 0 then 16 else 8 in
  let mk name f = { n = spf "%s width over %s" name kname.(kind); valid = between 1 bs; err = "*"; mk = (fun g n ->
      let c = any_cipher ~kind g in
      let v = G.raw g bs in
      f c v n g) } in
  let viac m_of rm = fun c v n g ->
    let t = c.cmk ~mode:(m_of n) ~iv:v c.ckey Cipher.Encrypt in
    let msg = G.raw g (3 * bs * n) in
    Mon.check_eq (spf "accepted width %d" n) ~got:(transform_string t msg)
      ~want:(Rf.mode_apply ~e:(e c) ~d:(d c) ~bs (rm n) ~decrypt:false ~iv:v msg) in
  let rs = [ mk "CFB" (viac (fun n -> Cipher.CFB n) (fun n -> Rf.CFB n)); mk "OFB" (viac (fun n -> Cipher.OFB n) (fun n -> Rf.OFB n));
             mk "CTR_N" (viac (fun n -> Cipher.CTR_N n) (fun n -> Rf.CTR_N n));
             mk "Block.cfb_encrypt" (fun c v n g -> ignore (new Block.cfb_encrypt ~iv:v n (block_enc c)));
             mk "Block.cfb_decrypt" (fun c v n g -> ignore (new Block.cfb_decrypt ~iv:v n (block_enc c)));
             mk "Block.ofb" (fun c v n g -> ignore (new Block.ofb ~iv:v n (block_enc c)));
             mk "Block.ctr" (fun c v n g -> ignore (new Block.ctr ~iv:v ~inc:n (block_enc c))) ] in
  List.iter (fun r ->
      for n = -3 to bs + 20 do judge g r n done;
      List.iter (judge g r) [ min_int; max_int; 256; 264; -8; -16; 65537; (1 lsl 32) + 1 ]) rs
(* incompatible block sizes in the triple MAC *)
let triple_case i g =
  let c k = any_cipher ~kind:k g in
  let k1 = G.int g 4 and k2 = G.int g 4 and k3 = G.int g 4 in
  let bs k = if k = 0 then 16 else 8 in
  let ok = bs k1 = bs k2 && bs k2 = bs k3 in
  let c1 = c k1 and c2 = c k2 and c3 = c k3 in
  match Mon.catch (fun () -> hash_string (new Block.mac_final_triple ~pad:Padding._8000 (block_enc c1) (block_dec c2) (block_enc c3) :> hash) "hello") with
  | Ok r ->
    if not ok then Mon.fail "mac_final_triple accepted block sizes %d %d %d" (bs k1) (bs k2) (bs k3);
    let b = bs k1 in
    let r1 = Rf.cbc_mac ~e:(e c1) ~bs:b ~iv:(String.make b '\000') (Rf.pad_8000 b "hello") in
    Mon.check_eq (spf "triple mac %d%d%d" k1 k2 k3) ~got:r ~want:(e c3 (d c2 r1))
  | Error "Incompatible_block_size" -> Mon.check (spf "mac_final_triple refused block sizes %d %d %d" (bs k1) (bs k2) (bs k3)) (not ok)
  | Error e -> Mon.fail "mac_final_triple raised %s" e
let sizes_case i g =
  (* modulus sizes *)
  let bad = [| 0; 1; 2; 8; 16; 30; 31; 33; 35; 63; 65; 127; 511; 1023; 4095; -2; -32; -64; min_int; 29; 28; 99 |] in
  let b = bad.(i mod Array.length bad) in
  let rng = Random.pseudo_rng (G.raw g 16) in
  let j n f = match Mon.catch (fun () -> ignore (f ())) with
    | Error "Wrong_key_size" -> Mon.seen (spf "%s %d refused" n b); Mon.event "refused" 1
    | Error x -> Mon.fail "%s %d raised %s" n b x
    | Ok () -> Mon.fail "%s accepted a modulus of %d bits" n b in
  j "RSA.new_key" (fun () -> RSA.new_key ~rng ~e:65537 b);
  j "RSA.new_key" (fun () -> RSA.new_key ~rng b);
  j "Paillier.new_key" (fun () -> Paillier.new_key ~rng b);
  (* the smallest sizes are accepted *)
  let s = 32 + 2 * (i mod 8) in
  (match Mon.catch (fun () -> RSA.new_key ~rng ~e:65537 s) with
   | Ok (p, q) -> Mon.check (spf "RSA size %d" s) (p.RSA.size = s && q.RSA.size = s) | Error x -> Mon.fail "RSA.new_key %d raised %s" s x);
  (match Mon.catch (fun () -> Paillier.new_key ~rng s) with
   | Ok (p, q) -> Mon.check (spf "Paillier size %d" s) (p.Paillier.size = s && q.Paillier.size = s) | Error x -> Mon.fail "Paillier.new_key %d raised %s" s x)
let level_case i g =
  let v = [| 1; 2; 3; 4; 5; 6; 7; 8; 9; 10; 11; -2; -9; 100; 256; 257; max_int; min_int; 1 lsl 32 + 10 |].(i mod 19) in
  match Mon.catch (fun () -> transform_string (Zlib.compress ~level:v ~write_zlib_header:true ()) "hello hello hello") with
  | Ok c -> if not (between 1 9 v) && between (-1000) 1000 v then Mon.fail "compression level %d accepted" v;
    if between 1 9 v then Mon.check_eq (spf "level %d" v) ~got:c ~want:(Rf.deflate v true 0 "hello hello hello")
  | Error e -> Mon.check (spf "compression level %d: %s" v e) (not (between 1 9 v))

let f name quick thorough run = { Mon.name; quick; thorough; run }
let props = [
  "C31", [ f "sizes" 420 2200 lengths_case; f "far" (Array.length rows * Array.length far) (Array.length rows * Array.length far) far_case;
           f "digest-sizes" 1100 4000 ints_case; f "hostile-sizes" 90 4000 hostile_case; f "widths" 12 400 width_case;
           f "triple" 300 5000 triple_case; f "moduli" 66 600 sizes_case; f "levels" 19 19 level_case ];
]
