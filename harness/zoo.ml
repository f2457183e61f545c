(* Catalogue of every object kind of the public API together with its
   reference semantics. *)
open Cryptokit
module G = Gen0

(* ---------- hashes ---------- *)
type hinst = {
  hname : string;
  hmk : unit -> hash;
  href : string -> string;              (* reference result *)
  hsize : int;                          (* reference result size *)
  hblk : int;                           (* internal block size *)
  hsecrets : string list;               (* key strings given by the caller *)
  hmk2 : (string -> hash) option;       (* same kind, other key (same length) *)
}
let hash_plain name mk kind bits size blk =
  { hname = name; hmk = mk; href = (fun m -> Rf.digest kind ~bits m); hsize = size; hblk = blk;
    hsecrets = []; hmk2 = None }
let fixed_hashes = [|
  hash_plain "sha1" Hash.sha1 Rf.k_sha1 0 20 64;
  hash_plain "sha224" Hash.sha224 Rf.k_sha224 0 28 64;
  hash_plain "sha256" Hash.sha256 Rf.k_sha256 0 32 64;
  hash_plain "sha384" Hash.sha384 Rf.k_sha384 0 48 128;
  hash_plain "sha512" Hash.sha512 Rf.k_sha512 0 64 128;
  hash_plain "sha2(224)" (fun () -> Hash.sha2 224) Rf.k_sha224 0 28 64;
  hash_plain "sha2(256)" (fun () -> Hash.sha2 256) Rf.k_sha256 0 32 64;
  hash_plain "sha2(384)" (fun () -> Hash.sha2 384) Rf.k_sha384 0 48 128;
  hash_plain "sha2(512)" (fun () -> Hash.sha2 512) Rf.k_sha512 0 64 128;
  hash_plain "sha3-224" (fun () -> Hash.sha3 224) Rf.k_sha3 224 28 144;
  hash_plain "sha3-256" (fun () -> Hash.sha3 256) Rf.k_sha3 256 32 136;
  hash_plain "sha3-384" (fun () -> Hash.sha3 384) Rf.k_sha3 384 48 104;
  hash_plain "sha3-512" (fun () -> Hash.sha3 512) Rf.k_sha3 512 64 72;
  hash_plain "keccak-224" (fun () -> Hash.keccak 224) Rf.k_keccak 224 28 144;
  hash_plain "keccak-256" (fun () -> Hash.keccak 256) Rf.k_keccak 256 32 136;
  hash_plain "keccak-384" (fun () -> Hash.keccak 384) Rf.k_keccak 384 48 104;
  hash_plain "keccak-512" (fun () -> Hash.keccak 512) Rf.k_keccak 512 64 72;
  hash_plain "ripemd160" Hash.ripemd160 Rf.k_rmd 0 20 64;
  hash_plain "md5" Hash.md5 Rf.k_md5 0 16 64;
  hash_plain "blake2b512" Hash.blake2b512 Rf.k_b2b 512 64 128;
  hash_plain "blake2s256" Hash.blake2s256 Rf.k_b2s 256 32 64;
  hash_plain "blake3_256" Hash.blake3_256 Rf.k_b3 256 32 1024;
|]
let blake2b_n n = hash_plain (Printf.sprintf "blake2b(%d)" (8*n)) (fun () -> Hash.blake2b (8*n)) Rf.k_b2b (8*n) n 128
let blake2s_n n = hash_plain (Printf.sprintf "blake2s(%d)" (8*n)) (fun () -> Hash.blake2s (8*n)) Rf.k_b2s (8*n) n 64
let blake3_n n = hash_plain (Printf.sprintf "blake3(%d)" (8*n)) (fun () -> Hash.blake3 (8*n)) Rf.k_b3 (8*n) n 1024
let n_fixed = Array.length fixed_hashes
(* hash number i of an enumeration covering all kinds *)
let n_hash = n_fixed + 3
let hash_i g i =
  if i < n_fixed then fixed_hashes.(i)
  else if i = n_fixed then blake2b_n (G.range g 1 64)
  else if i = n_fixed + 1 then blake2s_n (G.range g 1 32)
  else blake3_n (if G.chance g 4 then G.range g 1 700 else G.range g 1 130)
let any_hash g = hash_i g (G.int g n_hash)

(* ---------- block ciphers ---------- *)
type cinst = {
  cname : string; ckind : int; cbs : int; ckey : string;
  cmk : ?mode:Cipher.chaining_mode -> ?pad:Padding.scheme -> ?iv:string -> string -> Cipher.direction -> transform;
}
let kname = [| "aes"; "des"; "3des"; "blowfish" |]
let cipher_of kind key =
  { cname = Printf.sprintf "%s/%d" kname.(kind) (8 * String.length key); ckind = kind;
    cbs = (if kind = 0 then 16 else 8); ckey = key;
    cmk = (fun ?mode ?pad ?iv key dir ->
        match kind with
        | 0 -> Cipher.aes ?mode ?pad ?iv key dir
        | 1 -> Cipher.des ?mode ?pad ?iv key dir
        | 2 -> Cipher.triple_des ?mode ?pad ?iv key dir
        | _ -> Cipher.blowfish ?mode ?pad ?iv key dir) }
let keylen g kind = match kind with
  | 0 -> G.pick g [| 16; 24; 32 |] | 1 -> 8 | 2 -> G.pick g [| 16; 24 |]
  | _ -> if G.bool g then G.range g 4 56 else G.pick g [| 4; 5; 7; 8; 16; 55; 56 |]
let any_cipher ?kind g =
  let kind = match kind with Some k -> k | None -> G.pick g [| 0; 0; 0; 1; 2; 3 |] in
  cipher_of kind (G.str g (keylen g kind))
let e c = Rf.ecb c.ckind false c.ckey
let d c = Rf.ecb c.ckind true c.ckey
let block_enc c : Block.block_cipher = match c.ckind with
  | 0 -> new Block.aes_encrypt c.ckey | 1 -> new Block.des_encrypt c.ckey
  | 2 -> new Block.triple_des_encrypt c.ckey | _ -> new Block.blowfish_encrypt c.ckey
let block_dec c : Block.block_cipher = match c.ckind with
  | 0 -> new Block.aes_decrypt c.ckey | 1 -> new Block.des_decrypt c.ckey
  | 2 -> new Block.triple_des_decrypt c.ckey | _ -> new Block.blowfish_decrypt c.ckey
let any_mode g bs = match G.int g 8 with
  | 0 -> Rf.ECB | 1 | 2 -> Rf.CBC | 3 -> Rf.CFB (G.range g 1 bs) | 4 -> Rf.OFB (G.range g 1 bs)
  | 5 | 6 -> Rf.CTR | _ -> Rf.CTR_N (G.range g 1 bs)
let any_pad g : (string * Padding.scheme option) = match G.int g 3 with
  | 0 -> "nopad", None | 1 -> "length", Some Padding.length | _ -> "8000", Some Padding._8000
let do_pad name bs s = match name with
  | "nopad" -> s | "length" -> Rf.pad_length bs s | _ -> Rf.pad_8000 bs s
(* IVs biased towards carries *)
let any_iv g bs = match G.int g 4 with
  | 0 -> String.make bs '\255'
  | 1 -> let k = G.range g 1 bs in
    G.raw g (bs - k) ^ String.make (k - 1) '\255' ^ String.make 1 (Char.chr (G.range g 240 255))
  | 2 -> let k = G.range g 1 bs in
    G.raw g (bs - k) ^ (if k >= 2 then String.make (k - 2) '\255' ^ "\255" ^ String.make 1 (Char.chr (G.range g 200 255)) else "\254")
  | _ -> G.str g bs

(* ---------- MACs ---------- *)
let n_mac = 16
let mac_i g i : hinst =
  let mk name key (f : string -> hash) href size blk =
    { hname = name; hmk = (fun () -> f key); href; hsize = size; hblk = blk;
      hsecrets = [key]; hmk2 = Some f } in
  let hm name kind f size blk =
    let key = G.str g (match G.int g 4 with
        | 0 -> G.int g 20 | 1 -> blk + G.range g (-2) 2 | 2 -> G.int g (3 * blk) | _ -> size) in
    mk (Printf.sprintf "hmac_%s/k%d" name (String.length key)) key (fun k -> (f k : hash)) (Rf.hmac kind key) size blk in
  match i with
  | 0 -> hm "md5" Rf.k_md5 MAC.hmac_md5 16 64
  | 1 -> hm "sha1" Rf.k_sha1 MAC.hmac_sha1 20 64
  | 2 -> hm "sha256" Rf.k_sha256 MAC.hmac_sha256 32 64
  | 3 -> hm "sha384" Rf.k_sha384 MAC.hmac_sha384 48 128
  | 4 -> hm "sha512" Rf.k_sha512 MAC.hmac_sha512 64 128
  | 5 -> hm "ripemd160" Rf.k_rmd MAC.hmac_ripemd160 20 64
  | 6 -> let key = G.str g (G.range g 1 64) in let n = if G.chance g 3 then 64 else G.range g 1 64 in
    mk (Printf.sprintf "blake2b-mac(%d)/k%d" (8*n) (String.length key)) key
      (fun k -> if n = 64 then MAC.blake2b512 k else MAC.blake2b (8*n) k) (fun m -> Rf.digest Rf.k_b2b ~bits:(8*n) ~key m) n 128
  | 7 -> let key = G.str g (G.range g 1 32) in let n = if G.chance g 3 then 32 else G.range g 1 32 in
    mk (Printf.sprintf "blake2s-mac(%d)/k%d" (8*n) (String.length key)) key
      (fun k -> if n = 32 then MAC.blake2s256 k else MAC.blake2s (8*n) k) (fun m -> Rf.digest Rf.k_b2s ~bits:(8*n) ~key m) n 64
  | 8 -> let key = G.str g 32 in let n = if G.chance g 3 then 32 else G.range g 1 200 in
    mk (Printf.sprintf "blake3-mac(%d)" (8*n)) key
      (fun k -> if n = 32 then MAC.blake3_256 k else MAC.blake3 (8*n) k) (fun m -> Rf.digest Rf.k_b3 ~bits:(8*n) ~key m) n 1024
  | 9 -> let key = G.str g 16 in mk "siphash64" key (fun k -> (MAC.siphash k :> hash)) (Rf.siphash 8 key) 8 8
  | 10 -> let key = G.str g 16 in mk "siphash128" key (fun k -> (MAC.siphash128 k :> hash)) (Rf.siphash 16 key) 16 8
  | 11 | 12 ->
    let key = G.str g (G.pick g [| 16; 24; 32 |]) in
    if i = 11 then mk (Printf.sprintf "aes_cmac/%d" (8 * String.length key)) key (fun k -> MAC.aes_cmac k) (Rf.cmac key) 16 16
    else begin
      (* explicit IV: CBC chain starts from it *)
      let iv = G.str g 16 in
      let c = cipher_of 0 key in
      let rref m =
        (* CMAC with a non-zero IV = CMAC of the message whose first block is xored with IV;
           for messages shorter than a block the pad is applied first *)
        let l = String.length m in
        if l >= 16 then Rf.cmac key (Rf.xor (String.sub m 0 16) iv ^ String.sub m 16 (l - 16))
        else begin
          let dbl s =
            let b = Bytes.create 16 in
            for i = 0 to 15 do
              let x = (Char.code s.[i] lsl 1) lor (if i < 15 then Char.code s.[i+1] lsr 7 else 0) in
              Bytes.set b i (Char.chr (x land 255))
            done;
            if Char.code s.[0] land 128 <> 0 then
              Bytes.set b 15 (Char.chr (Char.code (Bytes.get b 15) lxor 0x87));
            Bytes.to_string b in
          let k2 = dbl (dbl (e c (String.make 16 '\000'))) in
          e c (Rf.xor iv (Rf.xor k2 (Rf.pad_8000 16 m)))
        end in
      mk (Printf.sprintf "aes_cmac_iv/%d" (8 * String.length key)) key (fun k -> MAC.aes_cmac ~iv k) rref 16 16
    end
  | 13 | 14 ->
    let kind = if i = 13 then 0 else G.pick g [| 1; 2 |] in
    let c = any_cipher ~kind g in
    let iv = if G.bool g then None else Some (G.str g c.cbs) in
    let pn, pad = if G.bool g then "length", Padding.length else "8000", Padding._8000 in
    let iv0 = match iv with None -> String.make c.cbs '\000' | Some s -> s in
    let f k : hash = match kind with
      | 0 -> MAC.aes ?iv ~pad k | 1 -> MAC.des ?iv ~pad k | _ -> MAC.triple_des ?iv ~pad k in
    mk (Printf.sprintf "cbcmac-%s-%s-%s" c.cname pn (if iv = None then "noiv" else "iv")) c.ckey f
      (fun m -> Rf.cbc_mac ~e:(e c) ~bs:c.cbs ~iv:iv0 (do_pad pn c.cbs m)) c.cbs c.cbs
  | _ ->
    let key = G.str g (G.pick g [| 16; 24 |]) in
    let iv = if G.bool g then None else Some (G.str g 8) in
    let pn, pad = if G.bool g then "length", Padding.length else "8000", Padding._8000 in
    let iv0 = match iv with None -> String.make 8 '\000' | Some s -> s in
    let k1 = String.sub key 0 8 and k2 = String.sub key 8 8 in
    let k3 = if String.length key = 24 then String.sub key 16 8 else k1 in
    mk (Printf.sprintf "retail-mac-%s/%d-%s" pn (8 * String.length key) (if iv = None then "noiv" else "iv")) key
      (fun k -> MAC.des_final_triple_des ?iv ~pad k)
      (fun m -> let r = Rf.cbc_mac ~e:(Rf.ecb 1 false k1) ~bs:8 ~iv:iv0 (do_pad pn 8 m) in
        Rf.ecb 1 false k3 (Rf.ecb 1 true k2 r)) 8 8
let any_mac g = mac_i g (G.int g n_mac)
let any_hm g = if G.bool g then any_hash g else any_mac g

(* ---------- feeding ---------- *)
(* pieces that end on multiples of u, with now and then an empty or odd one *)
let split_units g u n =
  let rec go n acc =
    if n = 0 then acc else
      let k = match G.int g 8 with
        | 0 -> 0 | 1 -> min n (G.range g 1 u) | 2 | 3 -> min n u
        | _ -> min n (u * G.range g 1 (max 1 (n / u))) in
      go (n - k) (k :: acc)
  in List.rev (go n [])
let feed_hash ?pieces g (h : hash) msg =
  let pieces = match pieces with Some p -> p | None -> G.split g (String.length msg) in
  let pos = ref 0 in
  let desc = Buffer.create 16 in
  List.iter (fun k ->
      (match G.int g 4 with
       | 0 -> h#add_string (String.sub msg !pos k); Printf.bprintf desc "s%d" k
       | 1 when k <= 24 ->
         for i = !pos to !pos + k - 1 do
           if G.bool g then h#add_char msg.[i] else h#add_byte (Char.code msg.[i]) done;
         Printf.bprintf desc "c%d" k
       | _ when G.chance g 30 && Mon.far_fits k ->
         Mon.far_use (fun () ->
           let b, o = Mon.far_put g (String.sub msg !pos k) in
           h#add_substring b o k); Printf.bprintf desc "f%d" k
       | _ ->
         let pre = G.int g 9 and post = G.int g 9 in
         let b = Bytes.of_string (G.raw g pre ^ String.sub msg !pos k ^ G.raw g post) in
         h#add_substring b pre k; Printf.bprintf desc "b%d" k);
      pos := !pos + k) pieces;
  Buffer.contents desc

let put_piece g (tr : < put_string : string -> unit; put_substring : bytes -> int -> int -> unit;
                    put_char : char -> unit; put_byte : int -> unit; .. >) s =
  let k = String.length s in
  match G.int g 4 with
  | 0 -> tr#put_string s; 's'
  | 1 when k <= 40 ->
    String.iter (fun c -> if G.bool g then tr#put_char c else tr#put_byte (Char.code c)) s; 'c'
  | _ when G.chance g 30 && Mon.far_fits k ->
    Mon.far_use (fun () ->
      let b, o = Mon.far_put g s in
      tr#put_substring b o k); 'f'
  | _ ->
    let pre = G.int g 9 and post = G.int g 9 in
    let b = Bytes.of_string (G.raw g pre ^ s ^ G.raw g post) in
    tr#put_substring b pre k; 'b'

(* ---------- transforms ---------- *)
type tinst = {
  tname : string;
  tmk : unit -> transform;
  tref : string -> string;         (* output on complete input *)
  tunit : int;                     (* input must be a multiple of this *)
  tflush : bool;                   (* flush is supported at unit boundaries *)
  tin : G.t -> int -> string;      (* valid input of roughly that length *)
  tsecrets : string list;
  texact : bool;                   (* output is byte-for-byte determined *)
}
let cipher_tr g ?mode ?pad dirdec =
  let c = any_cipher g in
  let mode = match mode with Some m -> m | None -> any_mode g c.cbs in
  let pn, pad = match pad with Some p -> p | None -> any_pad g in
  let u = Rf.unit_of c.cbs mode in
  let iv = if G.chance g 4 then None else Some (any_iv g c.cbs) in
  let iv0 = match iv with None -> String.make c.cbs '\000' | Some s -> s in
  let limit = match mode with Rf.CTR_N 1 -> 250 * c.cbs | _ -> max_int in
  let app decrypt m = Rf.mode_apply ~e:(e c) ~d:(d c) ~bs:c.cbs mode ~decrypt ~iv:iv0 m in
  let mode_ck = if mode = Rf.CBC && G.bool g then None else Some (Rf.to_ck mode) in
  let dir = if dirdec then Cipher.Decrypt else Cipher.Encrypt in
  { tname = Printf.sprintf "%s-%s-%s-%s" c.cname (Rf.mode_name mode) pn (if dirdec then "dec" else "enc");
    tmk = (fun () -> c.cmk ?mode:mode_ck ?pad ?iv c.ckey dir);
    tref = (fun m -> if dirdec then
               (let x = app true m in
                if pn = "nopad" then x else
                  let n = String.length x in
                  let k = if pn = "length" then n - Char.code x.[n-1] else String.rindex x '\128' in
                  String.sub x 0 k)
             else app false (do_pad pn u m));
    tunit = if pn = "nopad" || dirdec then u else 1;
    tflush = pn = "nopad";
    tin = (fun g n ->
        let n = min n limit in
        if pn = "nopad" then G.str g (n / u * u)
        else if dirdec then app false (do_pad pn u (G.str g (max 0 (n - u))))
        else G.str g n);
    tsecrets = c.ckey :: (match iv with None -> [] | Some s -> [s]); texact = true }
let arcfour_tr g =
  let key = G.str g (if G.chance g 5 then 256 else G.range g 1 256) in
  { tname = Printf.sprintf "arcfour/k%d" (String.length key);
    tmk = (fun () -> Cipher.arcfour key (if G.bool g then Cipher.Encrypt else Decrypt));
    tref = (fun m -> Rf.xor m (Rf.rc4 key (String.length m))); tunit = 1; tflush = true;
    tin = (fun g n -> G.str g n); tsecrets = [key]; texact = true }
let chacha_params g =
  let key = G.str g (if G.bool g then 32 else 16) in
  let iv = match G.int g 3 with 0 -> None | 1 -> Some (G.str g 8) | _ -> Some (G.str g 12) in
  let ctr = match iv with
    | Some s when String.length s = 12 ->
      (match G.int g 5 with 0 -> None | 1 -> Some (Int64.of_int (G.int g 100)) | 2 -> Some (Int64.of_int (0x1000000 - G.int g 4)) | 3 -> Some (Int64.of_int (0x1_0000_0000 - 1 - G.int g 6)) | _ -> Some (Int64.of_int (G.next g land 0xFFFF_FFFF)))
    | _ -> (match G.int g 5 with
        | 0 -> None | 1 -> Some (Int64.of_int (0x1_0000_0000 - G.int g 6))
        | 2 -> Some (Int64.of_int (G.next g land max_int))
        | 3 -> Some (Int64.of_int (((G.int g 5 + 1) lsl 32) - G.int g 4))
        | _ -> Some (Int64.of_int (G.int g 70000))) in
  key, iv, ctr
let chacha_tr g =
  let key, iv, ctr = chacha_params g in
  let iv0 = match iv with None -> String.make 8 '\000' | Some s -> s in
  let c0 = match ctr with None -> 0L | Some c -> c in
  { tname = Printf.sprintf "chacha20/k%d-iv%d-ctr%s" (String.length key)
        (match iv with None -> 0 | Some s -> String.length s)
        (match ctr with None -> "none" | Some c -> if c < 0x1_0000_0000L && c > 0xFFFF_FF00L then "carry" else "set");
    tmk = (fun () -> Cipher.chacha20 ?iv ?ctr key (if G.bool g then Cipher.Encrypt else Decrypt));
    tref = (fun m -> Rf.xor m (Rf.chacha20 key iv0 c0 (String.length m))); tunit = 1; tflush = true;
    tin = (fun g n -> G.str g n); tsecrets = key :: (match iv with None -> [] | Some s -> [s]); texact = true }

let b64tab = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
let ref_b64 pad s =
  let b = Buffer.create 100 in
  let n = String.length s in
  let at i = if i < n then Char.code s.[i] else 0 in
  let i = ref 0 in
  while !i < n do
    let v = (at !i lsl 16) lor (at (!i + 1) lsl 8) lor at (!i + 2) in
    let k = min 3 (n - !i) in
    for j = 0 to k do Buffer.add_char b b64tab.[(v lsr (18 - 6 * j)) land 63] done;
    if pad then for _ = k to 2 do Buffer.add_char b '=' done;
    i := !i + 3
  done; Buffer.contents b
let ref_hex s =
  let b = Buffer.create 100 in
  String.iter (fun c -> Printf.bprintf b "%02x" (Char.code c)) s; Buffer.contents b
let strip_nl s = String.concat "" (String.split_on_char '\n' s)
let ws g s =
  let b = Buffer.create 100 in
  String.iter (fun c -> if G.chance g 12 then Buffer.add_char b (G.pick g [| ' '; '\t'; '\n'; '\r' |]);
                Buffer.add_char b c) s; Buffer.contents b
let mk_t name mk tref ?(unit_ = 1) ?(flush = true) ?(secrets = []) ?(exact = true) tin =
  { tname = name; tmk = mk; tref; tunit = unit_; tflush = flush; tin; tsecrets = secrets; texact = exact }
let b64_dec s =
  let s = String.concat "" (List.map strip_nl [s]) in
  let b = Buffer.create 64 in
  let acc = ref 0 and nb = ref 0 in
  String.iter (fun c ->
      match String.index_opt b64tab c with
      | None -> ()
      | Some v -> acc := ((!acc lsl 6) lor v) land 0xffffff; nb := !nb + 6;
        if !nb >= 8 then begin nb := !nb - 8; Buffer.add_char b (Char.chr ((!acc lsr !nb) land 255)) end) s;
  Buffer.contents b
let hex_dec s =
  let l = List.filter (fun c -> not (List.mem c [' ';'\t';'\n';'\r'])) (List.of_seq (String.to_seq s)) in
  let v c = int_of_string ("0x" ^ String.make 1 c) in
  let rec go = function a :: b :: r -> Char.chr (16 * v a + v b) :: go r | _ -> [] in
  String.of_seq (List.to_seq (go l))
let encoder_tr g = match G.int g 6 with
  | 0 -> mk_t "b64compact" Base64.encode_compact (ref_b64 false) ~flush:false (fun g n -> G.str g n)
  | 1 -> mk_t "b64pad" Base64.encode_compact_pad (ref_b64 true) ~flush:false (fun g n -> G.str g n)
  | 2 -> mk_t "hexenc" Hexa.encode ref_hex (fun g n -> G.str g n)
  | 3 -> mk_t "b64dec" Base64.decode b64_dec ~flush:false
           (fun g n -> ws g (ref_b64 (G.bool g) (G.str g (n * 3 / 4))))
  | 4 -> mk_t "hexdec" Hexa.decode hex_dec ~flush:false
           (fun g n -> ws g (let s = ref_hex (G.str g (n / 2)) in if G.bool g then String.uppercase_ascii s else s))
  | _ -> mk_t "b64pad" Base64.encode_compact_pad (ref_b64 true) ~flush:false (fun g n -> G.str g n)
let any_data g n = match G.int g 4 with
  | 0 -> String.init n (fun i -> Char.chr (97 + (i / 3) mod 5))
  | 1 -> let a = G.raw g 64 in String.init n (fun i -> a.[(i * 7 + i / 50) land 63])
  | _ -> G.str g n
let compress_tr g =
  let level = G.int g 10 and hdr = G.bool g in
  mk_t (Printf.sprintf "compress-l%d-%b" level hdr)
    (fun () -> Zlib.compress ~level ~write_zlib_header:hdr ())
    (fun m -> m) ~exact:false any_data, hdr
let uncompress_tr g =
  let hdr = G.bool g in
  mk_t (Printf.sprintf "uncompress-%b" hdr)
    (fun () -> Zlib.uncompress ~expect_zlib_header:hdr ())
    (fun m -> let st, o = Rf.inflate hdr m in if st <> 0 then failwith "uncompress_tr: bad stream"; o)
    ~flush:false
    (fun g n -> Rf.deflate (G.int g 10) hdr (G.int g 4) (any_data g n))
let any_tr g = match G.int g 10 with
  | 0 | 1 | 2 -> cipher_tr g false
  | 3 | 4 -> cipher_tr g true
  | 5 -> arcfour_tr g
  | 6 -> chacha_tr g
  | 7 | 8 -> encoder_tr g
  | _ -> uncompress_tr g

(* ---------- AEAD ---------- *)
type ainst = {
  aname : string;
  aenc : unit -> authenticated_transform;
  adec : unit -> authenticated_transform;
  aref : string -> string;      (* ciphertext ^ tag *)
  akey : string; aiv : string; ahdr : string;
  amk : header:string -> iv:string -> key:string -> Cipher.direction -> authenticated_transform;
  aunit : int;
}
let gcm_inst ?key ?iv ?hdr g =
  let key = match key with Some k -> k | None -> G.str g (G.pick g [| 16; 24; 32 |]) in
  let iv = match iv with Some i -> i | None -> (match G.int g 5 with
      | 0 | 1 -> G.str g 12 | 2 -> G.str g (G.range g 1 40) | 3 -> G.str g (G.pick g [| 1; 8; 11; 13; 15; 16; 17; 31; 32; 33; 60; 128 |])
      | _ -> (* initial counter close to wrapping *)
        let j0 = G.raw g 12 ^ "\255\255\255" ^ String.make 1 (Char.chr (G.range g 240 255)) in
        Rf.gcm_iv_for_j0 key j0) in
  let hdr = match hdr with Some h -> h | None -> if G.chance g 4 then "" else G.str g (G.len g 80) in
  let amk ~header ~iv ~key dir =
    AEAD.aes_gcm ~header ~iv key (match dir with Cipher.Encrypt -> AEAD.Encrypt | _ -> AEAD.Decrypt) in
  { aname = Printf.sprintf "gcm/%d-iv%d-h%d" (8 * String.length key) (String.length iv) (String.length hdr);
    aenc = (fun () -> if hdr = "" then AEAD.aes_gcm ~iv key AEAD.Encrypt else amk ~header:hdr ~iv ~key Cipher.Encrypt);
    adec = (fun () -> amk ~header:hdr ~iv ~key Cipher.Decrypt);
    aref = (fun m -> Rf.gcm key iv hdr m); akey = key; aiv = iv; ahdr = hdr; amk; aunit = 1 }
let chapoly_inst ?key ?iv ?hdr g =
  let key = match key with Some k -> k | None -> G.str g (if G.chance g 4 then 16 else 32) in
  let iv = match iv with Some i -> i | None -> G.str g (if G.chance g 3 then 8 else 12) in
  let hdr = match hdr with Some h -> h | None -> if G.chance g 4 then "" else G.str g (G.len g 80) in
  let amk ~header ~iv ~key dir =
    AEAD.chacha20_poly1305 ~header ~iv key (match dir with Cipher.Encrypt -> AEAD.Encrypt | _ -> AEAD.Decrypt) in
  { aname = Printf.sprintf "chapoly/%d-iv%d-h%d" (8 * String.length key) (String.length iv) (String.length hdr);
    aenc = (fun () -> if hdr = "" then AEAD.chacha20_poly1305 ~iv key AEAD.Encrypt else amk ~header:hdr ~iv ~key Cipher.Encrypt);
    adec = (fun () -> amk ~header:hdr ~iv ~key Cipher.Decrypt);
    aref = (fun m ->
        let r = Rf.chapoly key iv hdr m in
        if String.length key = 32 && String.length iv = 12 then begin
          if Rf.chapoly_std key iv hdr m <> r then failwith "HARNESS-ERROR: chapoly references disagree"
        end; r);
    akey = key; aiv = iv; ahdr = hdr; amk; aunit = 1 }
let any_aead g = if G.bool g then gcm_inst g else chapoly_inst g

(* run an authenticated transform over msg with a random feeding/draining history *)
let run_auth g (t : authenticated_transform) msg =
  let out = Buffer.create 256 in
  let drain () = match G.int g 5 with
    | 0 -> Buffer.add_string out t#get_string
    | 1 -> let (b, p, l) = t#get_substring in Buffer.add_subbytes out b p l
    | 2 -> let n = min t#available_output (G.int g 5) in
      for _ = 1 to n do if G.bool g then Buffer.add_char out t#get_char else Buffer.add_char out (Char.chr t#get_byte) done
    | _ -> () in
  let pos = ref 0 in
  List.iter (fun k ->
      ignore (put_piece g t (String.sub msg !pos k)); pos := !pos + k; drain ())
    (G.split g (String.length msg));
  let tag = t#finish_and_get_tag in
  Buffer.add_string out t#get_string;
  Buffer.contents out, tag
