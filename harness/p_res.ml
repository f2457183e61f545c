(* C27: conservation of native resources *)
open Cryptokit
type ('a,'b) result = ('a,'b) Stdlib.result = Ok of 'a | Error of 'b
open Zoo
module G = Gen0
let spf = Printf.sprintf

let settle () = Gc.full_major (); Gc.full_major ()
let fds () =
  Array.to_list (Sys.readdir "/proc/self/fd")
  |> List.filter_map (fun s -> match Unix.readlink ("/proc/self/fd/" ^ s) with
      | l when not (String.length l >= 6 && String.sub l 0 6 = "/proc/") -> Some (s, l)
      | _ -> None | exception Unix.Unix_error _ -> None)
  |> List.sort compare
type obs = { live : int; z : int; bad : int; zbad : int; fd : (string * string) list }
let observe () = { live = Mon.counter 4; z = Mon.zlive (); bad = Mon.counter 7; zbad = Mon.counter 12; fd = fds () }
let conserve key a b =
  Mon.seen key;
  if b.bad <> a.bad then Mon.fail "%s: %d native blocks released twice or never acquired" key (b.bad - a.bad);
  if b.zbad <> a.zbad then Mon.fail "%s: %d zlib states released twice" key (b.zbad - a.zbad);
  if b.live <> a.live then Mon.fail "%s: %d native blocks still allocated after all objects were collected" key (b.live - a.live);
  if b.z <> a.z then Mon.fail "%s: %d zlib states still allocated after all objects were collected" key (b.z - a.z);
  if b.fd <> a.fd then Mon.fail "%s: descriptors %s before, %s after" key (String.concat "," (List.map fst a.fd)) (String.concat "," (List.map fst b.fd))

(* An object under test as a list of operations that may fail; [fin] ends its normal life. *)
type ob = { name : string; use : G.t -> unit; wipe : unit -> unit; fin : G.t -> unit; weak : Obj.t Weak.t; mutable wiped : bool }
let weak_of o = let w = Weak.create 1 in Weak.set w 0 (Some (Obj.repr o)); w
let of_hash name (h : hash) =
  { name; use = (fun g -> h#add_string (G.raw g (G.len g 300))); wipe = (fun () -> h#wipe); fin = (fun _ -> ignore h#result); weak = weak_of h; wiped = false }
let of_tr name u (t : transform) =
  { name; use = (fun g -> t#put_string (G.raw g (G.int g 20 * u)); if G.bool g then ignore t#get_string; if G.chance g 6 then t#flush);
    wipe = (fun () -> t#wipe); fin = (fun _ -> t#finish; ignore t#get_string); weak = weak_of t; wiped = false }
let of_auth name (t : authenticated_transform) =
  { name; use = (fun g -> t#put_string (G.raw g (G.len g 100)); if G.bool g then ignore t#get_string);
    wipe = (fun () -> t#wipe); fin = (fun _ -> ignore t#finish_and_get_tag; ignore t#get_string); weak = weak_of t; wiped = false }
let of_block name (c : Block.block_cipher) =
  { name; use = (fun g -> let b = Bytes.make 32 'x' in c#transform b 0 b (G.int g 16)); wipe = (fun () -> c#wipe); fin = (fun _ -> ()); weak = weak_of c; wiped = false }
let of_rng name (r : Random.rng) =
  { name; use = (fun g -> let b = Bytes.make 40 'x' in r#random_bytes b (G.int g 8) (G.int g 32)); wipe = (fun () -> r#wipe); fin = (fun _ -> ()); weak = weak_of r; wiped = false }
let nkinds = 16
let devfile = lazy (let f = Filename.temp_file ~temp_dir:"." "dev" ".bin" in
                    let oc = open_out_bin f in output_string oc (String.make 4000 'd'); close_out oc; at_exit (fun () -> try Sys.remove f with _ -> ()); f)
let mk g k : ob = match k with
  | 0 | 1 -> let h = any_hash g in of_hash h.hname (h.hmk ())
  | 2 -> let h = any_mac g in of_hash h.hname (h.hmk ())
  | 3 -> let h = fixed_hashes.(9 + G.int g 8) in of_hash h.hname (h.hmk ())       (* SHA-3 / Keccak: native contexts *)
  | 4 -> let h = blake3_n (G.range g 1 100) in of_hash h.hname (h.hmk ())
  | 5 -> of_hash "blake3 mac" (MAC.blake3 (8 * G.range g 1 64) (G.raw g 32))
  | 6 | 7 -> let t, _ = compress_tr g in of_tr t.tname 1 (t.tmk ())
  | 8 -> let t = uncompress_tr g in
    let o = t.tmk () in
    let c = t.tin g (G.len g 3000) in
    let c = if G.bool g then c else snd (Work.corrupt g (c ^ "x")) in
    { name = t.tname; use = (fun g -> o#put_string c); wipe = (fun () -> o#wipe); fin = (fun _ -> o#finish); weak = weak_of o; wiped = false }
  | 9 -> let t = cipher_tr g (G.bool g) in of_tr t.tname t.tunit (t.tmk ())
  | 10 -> let t = match G.int g 3 with 0 -> arcfour_tr g | 1 -> chacha_tr g | _ -> encoder_tr g in of_tr t.tname 1 (t.tmk ())
  | 11 -> let a = gcm_inst g in of_auth "gcm" (if G.bool g then a.aenc () else a.adec ())
  | 12 -> let a = chapoly_inst g in of_auth "chapoly" (if G.bool g then a.aenc () else a.adec ())
  | 13 -> let c = any_cipher g in of_block c.cname (if G.bool g then block_enc c else block_dec c)
  | 14 -> (match G.int g 3 with
      | 0 -> of_rng "pseudo_rng" (Random.pseudo_rng (G.raw g 32)) | 1 -> of_rng "pseudo_rng_aes_ctr" (Random.pseudo_rng_aes_ctr (G.raw g 20))
      | _ -> of_rng "system_rng" (Random.system_rng ()))
  | _ ->
    (* composed objects *)
    (match G.int g 4 with
     | 0 -> of_tr "compose zlib hex" 1 (compose (Zlib.compress ~level:(G.int g 10) ()) (Hexa.encode ()))
     | 1 -> of_tr "compose zlib unzlib" 1 (compose (Zlib.compress ()) (Zlib.uncompress ()))
     | 2 -> of_auth "zlib then sha3" (transform_then_hash (Zlib.compress ()) (Hash.sha3 256))
     | _ -> of_auth "zlib and blake3" (transform_and_hash (Zlib.compress ~write_zlib_header:true ()) (Hash.blake3_256 ())))

let life g log (o : ob) =
  Buffer.add_string log (o.name ^ ":");
  let ended = ref false in
  let steps = G.int g 6 in
  for _ = 0 to steps do
    (* the documentation excludes any other use after wiping *)
    let ch = match G.int g 8 with 0 -> 'w' | 2 -> 'g' | 1 when not o.wiped -> 'f' | _ when o.wiped -> 'w' | _ -> 'u' in
    if ch = 'w' then o.wiped <- true;
    Buffer.add_char log ch;
    ignore (Mon.catch (fun () -> match ch with
        | 'w' -> o.wipe () | 'f' -> o.fin g; ended := true
        | 'g' -> if G.chance g 4 then Gc.full_major () else Gc.minor ()
        | _ -> o.use g))
  done;
  Mon.event "operations" (steps + 1);
  Buffer.add_char log ' '

let one_case i g =
  settle ();
  let a = observe () in
  let log = Buffer.create 100 in
  let weaks = ref [] in
  let rec go n live =
    if n > 0 then begin
      (* several objects alive at once, interleaved *)
      let live = if List.length live < 4 then (match Mon.catch (fun () -> mk g (if n land 1 = 0 then i mod nkinds else G.int g nkinds)) with
          | Ok o -> weaks := o.weak :: !weaks; o :: live | Error e -> Mon.fail "creation failed: %s" e) else live in
      let o = List.nth live (G.int g (List.length live)) in
      life g log o;
      let live = if G.chance g 3 then List.filter (fun x -> x != o) live else live in
      go (n - 1) live
    end in
  go (G.range g 2 9) [];
  settle ();
  let b = observe () in
  Mon.event "objects" (List.length !weaks);
  conserve (spf "history %s" (Buffer.contents log)) a b;
  List.iter (fun w -> if Weak.check w 0 then Mon.fail "an abandoned object is still reachable (%s)" (Buffer.contents log)) !weaks;
  Mon.event "native_acquired_in_histories" 0
(* scenarios of all library parts, helpers included *)
let scen_case i g =
  settle ();
  let a = observe () in
  (* the references use zlib as well and release what they take *)
  for _ = 1 to 12 do
    let _, sc = Work.scenarios.(G.int g (if G.chance g 10 then Work.n_sc else Work.n_sc - 3)) in
    let b = Buffer.create 100 in
    ignore (Mon.catch (fun () -> ignore (sc g b)))
  done;
  settle ();
  conserve (spf "scenarios %d" (i mod 16)) a (observe ())
(* wiping and finishing release native contexts at once, without waiting for the collector *)
let prompt_case i g =
  settle ();
  let l0 = Mon.counter 4 and z0 = Mon.zlive () in
  let hdr = G.bool g in
  let keep : Obj.t list ref = ref [] in
  for _ = 1 to G.range g 1 5 do
    match G.int g 4 with
    | 0 -> let t = Zlib.compress ~write_zlib_header:hdr () in t#put_string (G.raw g (G.len g 2000)); t#finish; keep := Obj.repr t :: !keep
    | 1 -> let t = Zlib.uncompress ~expect_zlib_header:hdr () in t#put_string (Rf.deflate 6 hdr 0 (G.raw g (G.len g 2000))); t#finish; keep := Obj.repr t :: !keep
    | 2 -> let h = Hash.sha3 256 in h#add_string "x"; ignore h#result; h#wipe; h#wipe; keep := Obj.repr h :: !keep
    | _ -> let h = Hash.blake3_256 () in h#add_string "x"; ignore h#result; h#wipe; if G.bool g then h#wipe; keep := Obj.repr h :: !keep
  done;
  Mon.check (spf "zlib states live after finish: %d" (Mon.zlive () - z0)) (Mon.zlive () = z0);
  ignore (Sys.opaque_identity !keep);
  keep := []; settle ();
  Mon.check (spf "native blocks live at the end: %d" (Mon.counter 4 - l0)) (Mon.counter 4 = l0)
(* descriptors of device generators *)
let device_case i g =
  let f = Lazy.force devfile in
  settle ();
  let a = observe () in
  (match G.int g 4 with
   | 0 ->
     let rs = List.init (G.range g 1 6) (fun _ -> Random.device_rng f) in
     List.iter (fun r -> let b = Bytes.create 50 in r#random_bytes b (G.int g 10) (G.int g 40)) rs;
     List.iter (fun r -> r#wipe) rs
   | 1 -> (* repeated wiping must not close somebody else's descriptor *)
     let r = Random.device_rng f in
     r#wipe;
     let fd = Unix.openfile f [Unix.O_RDONLY] 0 in
     let b = Bytes.make 8 'x' in
     (match Mon.catch (fun () -> r#random_bytes b 0 8) with
      | Ok () -> Mon.fail "a wiped device generator delivered bytes from another descriptor"
      | Error _ -> Mon.seen "device use after wipe refused");
     ignore (Mon.catch (fun () -> r#wipe));
     (match Unix.fstat fd with
      | _ -> Mon.seen "device wiped twice"
      | exception Unix.Unix_error _ -> Mon.fail "wiping a device generator twice closed an unrelated descriptor");
     Unix.close fd
   | 2 -> (* failing sources *)
     ignore (Mon.catch (fun () -> Random.device_rng "./no-such-file"));
     let r = Random.device_rng f in
     let b = Bytes.create 5000 in
     (match Mon.catch (fun () -> r#random_bytes b 0 5000) with
      | Ok () -> Mon.fail "device generator delivered more than its file holds" | Error _ -> ());
     ignore (Mon.catch (fun () -> r#random_bytes b 4999 10));
     r#wipe
   | _ ->
     Mon.read_set 2 5 (G.int g 4) 0 (G.int g 1000);
     let r = Random.device_rng f in
     ignore (Mon.catch (fun () -> r#random_bytes (Bytes.create 100) 0 100));
     Mon.read_set 0 0 (-1) 0 0;
     r#wipe);
  settle ();
  conserve (spf "device %d" (i land 3)) a (observe ())
(* many rounds: nothing may accumulate *)
let heap_words () = (Gc.stat ()).Gc.live_words
let grow_case i g =
  let round () =
    let o = mk g (i mod nkinds) in
    ignore (Mon.catch (fun () -> o.use g));
    (match i / nkinds mod 4 with
     | 0 -> ignore (Mon.catch (fun () -> o.fin g)) | 1 -> ignore (Mon.catch o.wipe)
     | 2 -> ignore (Mon.catch (fun () -> o.fin g)); ignore (Mon.catch o.wipe) | _ -> ()) in
  for _ = 1 to 20 do round () done;
  settle ();
  let a = observe () and w0 = heap_words () in
  let peak = ref 0 and n = 400 in
  for k = 1 to n do round (); if k mod 40 = 0 then begin Gc.full_major (); peak := max !peak (Mon.zlive () - a.z + Mon.counter 4 - a.live) end done;
  settle ();
  let b = observe () and w1 = heap_words () in
  conserve (spf "%d rounds of kind %d end %d" n (i mod nkinds) (i / nkinds mod 4)) a b;
  Mon.check (spf "OCaml heap grew by %d words over %d rounds (kind %d)" (w1 - w0) n (i mod nkinds)) (w1 - w0 < 8000)
(* constructors and helpers that refuse their arguments keep nothing *)
let refused_case i g =
  settle ();
  let a = observe () in
  let n = ref 0 in
  let bad f = match f () with _ -> () | exception (Mon.Violation _ as e) -> raise e | exception _ -> incr n in
  for _ = 1 to 30 do
    bad (fun () -> match G.int g 14 with
        | 0 -> ignore (Zlib.compress ~level:(G.pick g [| 10; 99; -2; 1000 |]) ())
        | 1 -> ignore (Zlib.compress ~level:10 ~write_zlib_header:true ())
        | 2 -> ignore (Hash.sha3 (G.int g 1000)) | 3 -> ignore (Hash.keccak (G.int g 1000))
        | 4 -> ignore (Hash.blake3 (G.range g (-3) 20)) | 5 -> ignore (MAC.blake3 256 (G.raw g (G.int g 40)))
        | 6 -> ignore (AEAD.aes_gcm ~iv:(G.raw g (G.int g 20)) (G.raw g (G.int g 40)) AEAD.Encrypt)
        | 7 -> ignore (AEAD.chacha20_poly1305 ~iv:(G.raw g (G.int g 20)) (G.raw g (G.int g 40)) AEAD.Encrypt)
        | 8 -> ignore (Cipher.aes ~iv:(G.raw g (G.int g 20)) (G.raw g (G.int g 40)) Cipher.Encrypt)
        | 9 -> ignore (transform_string (Zlib.uncompress ()) (G.raw g (G.int g 200)))
        | 10 -> ignore (transform_string (Zlib.uncompress ~expect_zlib_header:true ()) "")
        | 11 -> ignore (transform_string (compose (Zlib.uncompress ()) (Cipher.aes ~mode:Cipher.ECB (G.raw g 16) Cipher.Encrypt)) (Rf.deflate 6 false 0 (G.raw g 7)))
        | 12 -> ignore (auth_check_transform_string (AEAD.aes_gcm ~iv:(G.raw g 12) (G.raw g 16) AEAD.Decrypt) (G.raw g (G.int g 40)))
        | _ -> ignore (Random.device_rng "./absent"))
  done;
  Mon.event "refusals" !n;
  settle ();
  let b = observe () in
  conserve "refusing constructors and failing helpers" a b
(* keys and helpers *)
let f name quick thorough run = { Mon.name; quick; thorough; run }
let props = [
  "C27", [ f "histories" 3200 60000 one_case; f "scenarios" 600 8000 scen_case; f "prompt" 800 8000 prompt_case; f "device" 400 4000 device_case;
           f "refused" 320 4000 refused_case; f "rounds" 128 640 grow_case ];
]
