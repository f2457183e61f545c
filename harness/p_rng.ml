(* C18 seeded generators, C19 entropy sources. *)
open Cryptokit
module G = Gen0
type ('a,'b) result = ('a,'b) Stdlib.result = Ok of 'a | Error of 'b
let spf = Printf.sprintf

(* ---------------- C18 ---------------- *)
let fresh s = Bytes.to_string (Bytes.of_string s)
let ref_stream aes seed n =
  if aes then begin
    let key = String.sub seed 0 16 in
    let nb = (n + 15) / 16 in
    let b = Bytes.make (16 * nb) '\000' in
    for i = 0 to nb - 1 do Bytes.set_int64_be b (16 * i + 8) (Int64.of_int i) done;
    String.sub (Rf.ecb 0 false key (Bytes.unsafe_to_string b)) 0 n
  end else begin
    let l = String.length seed in
    let k = if l >= 32 then String.sub seed 0 32 else if l > 16 then seed ^ String.make (32 - l) '\000' else seed in
    Rf.chacha20 k (String.make 8 '\000') 0L n
  end
let mk aes seed = if aes then Random.pseudo_rng_aes_ctr (fresh seed) else Random.pseudo_rng (fresh seed)
let name aes = if aes then "aes-prng" else "chacha-prng"
(* one request *)
let request g (r : Random.rng) n out what =
  match G.int g 3 with
  | 0 -> Buffer.add_string out (Random.string r n)
  | _ when G.chance g 20 && Mon.far_fits n ->
    Mon.far_use (fun () ->
      let b, o = Mon.far_put g (G.raw g n) in
      r#random_bytes b o n;
      Buffer.add_subbytes out b o n)
  | _ ->
    let o = G.int g 20 and t = G.int g 20 in
    let before = G.raw g (o + n + t) in
    let b = Bytes.of_string before in
    r#random_bytes b o n;
    Buffer.add_subbytes out b o n;
    Mon.check_eq (what ^ "/outside") ~got:(Bytes.sub_string b 0 o ^ Bytes.sub_string b (o + n) t)
      ~want:(String.sub before 0 o ^ String.sub before (o + n) t)
let sizes g total =
  let rec go left acc = if left <= 0 then acc else
      let k = match G.int g 7 with
        | 0 -> 0 | 1 -> 1 | 2 -> G.int g 16 | 3 -> 16 * G.range g 1 5 | 4 -> 64 * G.range g 1 5 + G.range g (-1) 1
        | 5 -> G.int g 200 | _ -> G.int g 1000 in
      go (left - k - 1) (k :: acc) in go total []
let stream_fam i g =
  let aes = i land 1 = 0 in
  let seed = G.str g (match G.int g 3 with 0 -> 16 | 1 -> G.range g 16 40 | _ -> G.range g 16 100) in
  let total = match G.int g 5 with 0 -> 10 | 1 -> 100 | 2 -> 1000 | 3 -> 6000 | _ -> G.int g 3000 in
  let r = mk aes seed and out = Buffer.create 100 in
  let sz = sizes g total in
  List.iter (fun k -> request g r k out (name aes)) sz;
  let got = Buffer.contents out in
  Mon.check_eq (spf "%s/seed%d/%d requests/%s" (name aes) (String.length seed) (List.length sz)
                  (String.concat "," (List.map string_of_int (List.filteri (fun i _ -> i < 6) sz))))
    ~got ~want:(ref_stream aes seed (String.length got));
  r#wipe
(* far into the stream: carries over two and three bytes of the block counter *)
let far_fam i g =
  let aes = i land 1 = 0 in
  let seed = G.str g (G.range g 16 40) in
  let r = mk aes seed in
  let total = if aes then 16 * (65536 + 70000) else 64 * (65536 + 3000) in
  let out = Buffer.create (total + 1000) in
  while Buffer.length out < total do
    let n = match G.int g 4 with 0 -> G.int g 50 | 1 -> G.int g 5000 | 2 -> 65536 | _ -> G.int g 300000 in
    let b = Bytes.create n in
    r#random_bytes b 0 n; Buffer.add_bytes out b
  done;
  let got = Buffer.contents out in
  Mon.check_eq (spf "%s far" (name aes)) ~got ~want:(ref_stream aes seed (String.length got))
(* several generators interleaved; equal seeds give equal streams; only the prefix of the seed counts *)
let multi_fam i g =
  let base = G.raw g 40 in
  let n = G.range g 2 4 in
  let gens = Array.init n (fun _ ->
      let aes = G.bool g in
      let keep = if aes then 16 else 32 in
      let seed = if G.bool g then String.sub base 0 keep ^ G.raw g (G.int g 20) else G.raw g (G.range g 16 40) in
      (aes, seed, mk aes seed, Buffer.create 100)) in
  for _ = 1 to 25 do
    let aes, seed, r, out = G.pick g gens in
    request g r (G.int g 70) out (name aes)
  done;
  Array.iter (fun (aes, seed, r, out) ->
      let got = Buffer.contents out in
      Mon.check_eq (spf "interleaved %s seed%d" (name aes) (String.length seed)) ~got ~want:(ref_stream aes seed (String.length got))) gens
let short_fam i g =
  for l = 0 to 15 do
    List.iter (fun aes ->
        Mon.seen (spf "%s seed of %d bytes" (name aes) l);
        match Mon.catch (fun () -> mk aes (G.str g l)) with
        | Error "Seed_too_short" -> ()
        | Error e -> Mon.fail "%s with a %d-byte seed raises %s" (name aes) l e
        | Ok _ -> Mon.fail "%s accepts a %d-byte seed" (name aes) l) [true; false]
  done
(* a failed request consumes nothing *)
let invalid_fam i g =
  let aes = i land 1 = 0 in
  let seed = G.raw g 32 in
  let r = mk aes seed and out = Buffer.create 100 in
  for _ = 1 to 12 do
    if G.bool g then request g r (G.int g 40) out (name aes)
    else begin
      let b = Bytes.make 30 '.' in
      let o, n = G.pick g [| -1, 5; 0, 31; 26, 5; 31, 1; max_int, 2; 5, max_int; 16, 15 |] in
      (match Mon.catch (fun () -> r#random_bytes b o n) with
       | Error _ -> ()
       | Ok () -> Mon.fail "%s: range %d,%d of a 30-byte buffer accepted" (name aes) o n)
    end
  done;
  let got = Buffer.contents out in
  Mon.check_eq (spf "%s with refused requests in between" (name aes)) ~got ~want:(ref_stream aes seed (String.length got))
(* AES: past 2^24 blocks (carry over three bytes of the counter), compared piece by piece *)
let farther_fam i g =
  if Mon.first () then begin
    let seed = G.raw g (G.range g 16 40) in
    let key = String.sub seed 0 16 in
    let r = mk true seed in
    let piece = 1 lsl 20 in
    let b = Bytes.create piece in
    let want = Bytes.make piece '\000' in
    for k = 0 to (1 lsl 24) * 16 / piece do
      r#random_bytes b 0 piece;
      Bytes.fill want 0 piece '\000';
      for j = 0 to piece / 16 - 1 do Bytes.set_int64_be want (16 * j + 8) (Int64.of_int (k * (piece / 16) + j)) done;
      let w = Rf.ecb 0 false key (Bytes.unsafe_to_string want) in
      Mon.seen (spf "aes-prng past 2^24 blocks, MB %d" k);
      if not (String.equal (Bytes.unsafe_to_string b) w) then Mon.fail "aes-prng: the stream is wrong in its megabyte number %d" k
    done
  end
(* one request of more than 4 GB (block counter stays below 2^32 blocks) *)
let huge_fam i g =
  if not (Mon.is_asan ()) then begin
    let seed = G.raw g 32 in
    let r = mk false seed in
    let n = (1 lsl 32) + 100 + G.int g 200 in
    let b = Bytes.create (n + 16) in
    Bytes.fill b n 16 'Z';
    r#random_bytes b 0 n;
    let probe off len =
      (* reference from the block containing off *)
      let blk = off / 64 in
      let s = Rf.chacha20 seed (String.make 8 '\000') (Int64.of_int blk) (len + off mod 64) in
      Mon.check_eq (spf "chacha-prng request of %d bytes, at %d" n off) ~got:(Bytes.sub_string b off len)
        ~want:(String.sub s (off mod 64) len) in
    probe 0 1000; probe 100_000 70_000; probe ((1 lsl 31) - 100) 300; probe ((1 lsl 32) - 1000) 1050; probe (n - 50) 50;
    for _ = 1 to 50 do probe (G.int g (n - 5000)) (G.range g 1 5000) done;
    Mon.check_eq "huge request/outside" ~got:(Bytes.sub_string b n 16) ~want:(String.make 16 'Z');
    let c = Bytes.create 100 in
    r#random_bytes c 0 100;
    let s = Rf.chacha20 seed (String.make 8 '\000') (Int64.of_int (n / 64)) (100 + n mod 64) in
    Mon.check_eq "after huge request" ~got:(Bytes.to_string c) ~want:(String.sub s (n mod 64) 100)
  end

(* ---------------- C19 ---------------- *)
let check_source = Work.check_source
let req_size g = if G.chance g 60 then (match G.int g 4 with 0 -> 65536 + G.range g (-3) 300 | 1 -> G.range g 4000 70000 | 2 -> 256 * G.range g 100 2000 + G.range g 0 2 | _ -> G.range g 100_000 1_100_000) else match G.int g 6 with
  | 0 -> G.int g 10 | 1 -> G.int g 100 | 2 -> 256 * G.range g 0 5 + G.range g 0 2 | 3 -> G.range g 250 260
  | 4 -> G.int g 3000 | _ -> 8 * G.int g 100
let in_buffer g n f =
  if G.chance g 20 && Mon.far_fits n then
    Mon.far_use (fun () ->
      let b, o = Mon.far_put g (G.raw g n) in
      let r = f b o in
      r, Bytes.sub_string b o n)
  else
  let o = G.int g 20 and t = G.int g 20 in
  let before = G.raw g (o + n + t) in
  let b = Bytes.of_string before in
  let r = f b o in
  let outside = Bytes.sub_string b 0 o ^ Bytes.sub_string b (o + n) t in
  if outside <> String.sub before 0 o ^ String.sub before (o + n) t then Mon.fail "bytes outside the requested range were written";
  r, Bytes.sub_string b o n
let observed = ref false and fresh_tab : (string, unit) Hashtbl.t = Hashtbl.create 100
let big_size g = match G.int g 4 with 0 -> 65536 + G.range g (-300) 300 | 1 -> 256 * G.range g 100 1000 + G.range g 0 2 | 2 -> 1024 * G.range g 10 280 | _ -> G.range g 4000 260_000
let system_fam ?(large = false) i g =
  let which = i mod 3 in
  let nm = [| "system_rng"; "secure_rng"; "Random.string secure_rng" |].(which) in
  let r = if which = 0 then Random.system_rng () else Random.secure_rng in
  let fail_at = if large then G.int g (G.pick g [| 20; 200; 1100 |]) else if G.chance g 3 then G.int g 6 else -1 in
  Mon.ent_set 1 fail_at;
  Mon.fault_count (G.pick g [| -1; 1; 1; 2; 3 |]);
  let dead = ref false in
  for _ = 1 to 6 do
    if not !dead then begin
      let n = if large then big_size g else req_size g in
      let p0 = Mon.ent_pos () and c0 = Mon.ent_calls () in
      let res, got =
        if which = 2 then (match Mon.catch (fun () -> Random.string r n) with Ok s -> Ok (), s | Error e -> Error e, "")
        else in_buffer g n (fun b o -> Mon.catch (fun () -> r#random_bytes b o n)) in
      let p1 = Mon.ent_pos () in
      let failed = fail_at >= 0 && Mon.ent_calls () > fail_at in
      Mon.event "entropy_calls" (Mon.ent_calls () - c0);
      match res with
      | Ok () ->
        if Mon.ent_calls () > c0 then observed := true;
        if n > 0 && not !observed then begin
          (* drawn from somewhere else: at least it must be fresh *)
          Mon.event "requests_to_unobserved_source" 1;
          if n >= 16 then begin
            if Hashtbl.mem fresh_tab (String.sub got 0 16) || Hashtbl.mem fresh_tab (String.sub got (n - 16) 16) then
              Mon.fail "%s delivered the same bytes twice" nm;
            Hashtbl.replace fresh_tab (String.sub got 0 16) (); Hashtbl.replace fresh_tab (String.sub got (n - 16) 16) ()
          end
        end else check_source (spf "%s/%d/fault%b" nm (n land 255) failed) ~slack:256 Mon.ent_byte p0 p1 got
      | Error "Entropy_source_closed" | Error "No_entropy_source" ->
        Mon.seen (spf "%s fails loudly" nm); Mon.event "entropy_faults_reported" 1;
        if not failed then Mon.fail "%s raised an error although the source works (%d bytes requested)" nm n;
        dead := true
      | Error e ->
        Mon.seen (spf "%s fails loudly" nm); Mon.event "entropy_faults_reported" 1;
        if not failed then Mon.fail "%s raised %s although the source works" nm e;
        dead := true
    end
  done;
  Mon.ent_set 0 (-1)
(* freshness of the real source *)
let real_fam i g =
  let n = G.range g 16 600 in
  let seen = Hashtbl.create 10 in
  for k = 1 to 4 do
    let src = [| Random.secure_rng; Random.system_rng (); Random.device_rng "/dev/urandom" |].(G.int g 3) in
    let s = Random.string src n in
    for j = 0 to n / 16 - 1 do
      let w = String.sub s (16 * j) 16 in
      Mon.seen "real-source-freshness";
      if Hashtbl.mem seen w then Mon.fail "the same 16 random bytes were delivered twice (request of %d bytes)" n;
      Hashtbl.add seen w ()
    done
  done
let dev_file = ref ""
let dev_bytes = lazy (G.raw (G.make [ 4242 ]) 400_000)
let device g f =
  if !dev_file = "" then begin
    let p = Filename.temp_file ~temp_dir:"." "dev" ".rnd" in
    let oc = open_out_bin p in output_string oc (Lazy.force dev_bytes); close_out oc;
    at_exit (fun () -> try Sys.remove p with _ -> ());
    dev_file := p
  end;
  let r = Random.device_rng !dev_file in
  Fun.protect ~finally:(fun () -> Mon.read_set 0 0 (-1) 0 0; try r#wipe with _ -> ()) (fun () -> f r)
let device_fam i g =
  let src = Lazy.force dev_bytes in
  device g (fun r ->
      let max = match G.int g 4 with 0 -> 0 | 1 -> 1 | 2 -> G.range g 1 20 | _ -> G.range g 1 5000 in
      let fail_at = if G.bool g then G.int g (if G.chance g 3 then 120 else 12) else -1 in
      let kind = G.int g 3 in
      Mon.read_set 1 max fail_at kind (G.next g land 0xffffff);
      Mon.fault_count (G.pick g [| -1; 1; 1; 2 |]);
      let pos = ref 0 and dead = ref false in
      for _ = 1 to 6 do
        if not !dead then begin
          let n = if max = 1 then G.int g 60 else if G.chance g 4 then G.range g 60_000 140_000 else min 150_000 (req_size g) in
          let f0 = Mon.read_failed () and s0 = Mon.read_short () in
          let res, got = in_buffer g n (fun b o -> Mon.catch (fun () -> r#random_bytes b o n)) in
          let failed = Mon.read_failed () > f0 in
          Mon.event "short_reads_injected" (Mon.read_short () - s0);
          match res with
          | Ok () ->
            let avail = max_int in ignore avail;
            if !pos + n > String.length src then
              Mon.fail "device_rng returned %d bytes at position %d of a %d-byte source" n !pos (String.length src);
            Mon.check_eq (spf "device_rng/%d bytes/short<=%d/fault%b" (n land 1023) max failed) ~got ~want:(String.sub src !pos n);
            pos := !pos + n
          | Error e ->
            Mon.seen "device_rng fails loudly"; Mon.event "device_faults_reported" 1;
            if not failed && !pos + n <= String.length src then
              Mon.fail "device_rng raised %s although the source works" e;
            dead := true
        end
      done)
(* end of file of a real file: every request crossing it must fail *)
let eof_fam i g =
  let len = G.int g 300 in
  let s = G.raw g len in
  let p = Filename.temp_file ~temp_dir:"." "dev" ".eof" in
  let oc = open_out_bin p in output_string oc s; close_out oc;
  let r = Random.device_rng p in
  Sys.remove p;
  Fun.protect ~finally:(fun () -> try r#wipe with _ -> ()) (fun () ->
      let pos = ref 0 and k = ref 0 in
      while !k < 8 do
        incr k;
        let n = G.range g 1 120 in
        let res, got = in_buffer g n (fun b o -> Mon.catch (fun () -> r#random_bytes b o n)) in
        match res with
        | Ok () ->
          if !pos + n > len then Mon.fail "device_rng: %d bytes requested, %d left before end of file, no error" n (len - !pos);
          Mon.check_eq (spf "device_rng until eof/%d" (len - !pos - n)) ~got ~want:(String.sub s !pos n);
          pos := !pos + n
        | Error "Entropy_source_closed" ->
          Mon.seen "device_rng at end of file";
          if !pos + n <= len then Mon.fail "device_rng reports end of file %d bytes early" (len - !pos - n + 1);
          k := 100
        | Error e -> Mon.fail "device_rng at end of file raises %s" e
      done)
(* fifo with a writer delivering pieces *)
let fifo_fam i g =
  let p = Filename.temp_file ~temp_dir:"." "fifo" "" in
  Sys.remove p; Unix.mkfifo p 0o600;
  let len = G.range g 1 20000 in
  let s = G.raw g len in
  let cuts = G.split g len in
  match Unix.fork () with
  | 0 ->
    (try
       let fd = Unix.openfile p [Unix.O_WRONLY] 0 in
       let pos = ref 0 in
       List.iteri (fun j k -> if k > 0 then ignore (Unix.write_substring fd s !pos k); pos := !pos + k;
                    if j < 10 then Unix.sleepf 0.0005) cuts;
       Unix._exit 0
     with _ -> Unix._exit 1)
  | pid ->
    let r = Random.device_rng p in
    Fun.protect ~finally:(fun () -> (try r#wipe with _ -> ()); (try Sys.remove p with _ -> ()); ignore (Unix.waitpid [] pid))
      (fun () ->
         let a = G.int g len in
         let _, got = in_buffer g a (fun b o -> r#random_bytes b o a) in
         Mon.check_eq "fifo first" ~got ~want:(String.sub s 0 a);
         let _, got = in_buffer g (len - a) (fun b o -> r#random_bytes b o (len - a)) in
         Mon.check_eq (spf "fifo/%d pieces" (List.length cuts)) ~got ~want:(String.sub s a (len - a));
         let res, _ = in_buffer g 3 (fun b o -> Mon.catch (fun () -> r#random_bytes b o 3)) in
         Mon.seen "fifo end of file";
         if res = Ok () then Mon.fail "device_rng returned bytes after the source was closed")
(* an emulated generator that works: it must be accepted, if the library looks for one at all *)
let hw_working () =
  Mon.rr_set 1 (-1) 0;
  match Random.hardware_rng () with
  | r -> Some r
  | exception Cryptokit.Error No_entropy_source ->
    let looked = Mon.rr_cpuid () > 0 || Mon.rr_execs () > 0 in
    Mon.rr_set 0 (-1) 0;
    Mon.seen "hardware generator absent: refused with No_entropy_source";
    if looked then Mon.fail "hardware_rng refuses a generator that works";
    None
let hw_ok = lazy (match hw_working () with Some _ -> true | None -> false)
let hardware_fam ?(large = false) i g =
  match hw_working () with
  | None -> ()
  | Some r -> begin
    let from = if large then G.int g (G.pick g [| 1000; 9000; 35000 |]) else if G.chance g 3 then -1 else G.int g 40 in
    let count = G.pick g [| 1; 2; 5; 19; 20; 21; 50; -1 |] in
    Mon.rr_set 1 from count;
    let dead = ref false in
    for _ = 1 to 5 do
      if not !dead then begin
        let n = if large then big_size g else if G.bool g then G.int g 70 else req_size g in
        let p0 = Mon.rr_pos () and f0 = Mon.rr_failures () and e0 = Mon.rr_execs () in
        let res, got = in_buffer g n (fun b o -> Mon.catch (fun () -> r#random_bytes b o n)) in
        let p1 = Mon.rr_pos () and f1 = Mon.rr_failures () in
        Mon.event "rdrand_executions" (Mon.rr_execs () - e0); Mon.event "rdrand_failures_injected" (f1 - f0);
        match res with
        | Ok () -> check_source (spf "hardware_rng/%d/failures%d" (n land 255) (min (f1 - f0) 30)) ~slack:8 Mon.rr_byte (8 * p0) (8 * p1) got
        | Error e ->
          Mon.seen (spf "hardware_rng fails loudly/%d" (n land 7)); Mon.event "hardware_faults_reported" 1;
          if f1 = f0 then Mon.fail "hardware_rng raised %s although the source works" e;
          dead := true
      end
    done;
    Mon.rr_set 0 (-1) 0
  end
(* hardware source unusable at creation; in a process of its own, since a processor does not change while it runs *)
let hardware_off_one i g =
  match i mod 3 with
  | 1 ->
    (* defective processors whose generator always answers with ones *)
    Mon.rr_set 2 (-1) 0;
    Mon.seen "hardware generator stuck at all ones";
    (match Random.hardware_rng () with
     | exception Cryptokit.Error No_entropy_source -> ()
     | r ->
       let n = G.range g 8 40 in
       let b = Bytes.make n '\000' in
       (match Mon.catch (fun () -> r#random_bytes b 0 n) with
        | Error _ -> ()
        | Ok () -> if Bytes.to_string b = String.make n '\255' then Mon.fail "hardware_rng delivers the constant bytes of a defective generator"))
  | 2 ->
    Mon.rr_set 4 (-1) 0;
    let r = Mon.catch (fun () -> ignore (Random.hardware_rng ())) in
    let asked = Mon.rr_cpuid () and ran = Mon.rr_execs () in
    if asked > 0 then begin
      Mon.seen "hardware generator absent";
      if ran > 0 then Mon.fail "RDRAND executed on a processor without it";
      match r with
      | Error "No_entropy_source" -> ()
      | Error e -> Mon.fail "hardware_rng on a processor without generator raises %s" e
      | Ok () -> Mon.fail "hardware_rng accepted on a processor without generator"
    end
  | _ ->
    Mon.rr_set 1 0 (-1);
    Mon.seen "hardware generator that never answers";
    (match Random.hardware_rng () with
     | exception Cryptokit.Error No_entropy_source -> ()
     | r ->
       let b = Bytes.make 16 '\000' in
       (match Mon.catch (fun () -> r#random_bytes b 0 16) with
        | Error _ -> ()
        | Ok () -> Mon.fail "hardware_rng returned bytes from a source that always fails"))
let hardware_off i _ =
  match Mon.spawn_case "hardware-off-one" i with
  | None -> Mon.event "processors_without_usable_generator" 1
  | Some v -> Mon.fail "in a fresh process: %s" v

(* requests of more than 2^31 and 2^32 bytes *)
let huge_system i g =
  if Mon.first () then begin
    let n = (if i = 0 then 1 lsl 31 else 1 lsl 32) + G.range g 1 600 in
    let r = Random.system_rng () in
    let b = Bytes.create (n + 8) in
    Bytes.set_int64_be b n 0x5a5a5a5a5a5a5a5aL;
    Mon.ent_set 1 (-1);
    let res = Mon.catch (fun () -> r#random_bytes b 0 n) in
    let p = Mon.ent_pos () and calls = Mon.ent_calls () in
    Mon.ent_set 0 (-1);
    Mon.seen (spf "system_rng request of more than 2^%d bytes" (31 + i));
    match res with
    | Error e -> Mon.fail "system_rng raised %s for a request of %d bytes" e n
    | Ok () when calls = 0 -> Mon.event "requests_to_unobserved_source" 1
    | Ok () ->
      Mon.event "huge_bytes_requested" n;
      Mon.check (spf "system_rng: %d bytes requested, the source delivered %d" n p) (p >= n);
      if p = n then begin
        let probe o l = for k = o to o + l - 1 do
            if Char.code (Bytes.get b k) <> Mon.ent_byte k then Mon.fail "system_rng: byte %d of %d is not the source's" k n done in
        probe 0 5000; probe ((1 lsl 31) - 300) 300; probe (n - 700) 700;
        for _ = 1 to 2000 do probe (G.int g (n - 300)) 300 done
      end;
      Mon.check "system_rng: bytes after a huge request" (Bytes.get_int64_be b n = 0x5a5a5a5a5a5a5a5aL)
  end
(* the hardware generator is too slow for this: observe that the call is still busy after a while, or, when it returns,
   that it has written everywhere *)
let huge_hardware i g =
  if Mon.first () && Lazy.force hw_ok then begin
    let n = (if i = 0 then 1 lsl 31 else 1 lsl 32) + G.range g 1 600 in
    flush_all ();
    match Unix.fork () with
    | 0 ->
      (try
         let b = Bytes.create n in
         (Random.hardware_rng ())#random_bytes b 0 n;
         let blank o = let r = ref true in for k = o to o + 63 do if Bytes.get b k <> '\000' then r := false done; !r in
         let bad = ref (blank (n - 64) || blank 0) in
         for k = 0 to 1000 do if blank (k * (n / 1010)) then bad := true done;
         Unix._exit (if !bad then 7 else 0)
       with Cryptokit.Error _ -> Unix._exit 0 | _ -> Unix._exit 1)
    | pid ->
      let t0 = Unix.gettimeofday () in
      let rec wait () = match Unix.waitpid [Unix.WNOHANG] pid with
        | 0, _ when Unix.gettimeofday () -. t0 > 4. -> Unix.kill pid Sys.sigkill; ignore (Unix.waitpid [] pid); None
        | 0, _ -> Unix.sleepf 0.05; wait ()
        | _, st -> Some st in
      Mon.seen (spf "hardware_rng request of more than 2^%d bytes" (31 + i));
      match wait () with
      | Some (Unix.WEXITED 7) -> Mon.fail "hardware_rng left part of a request of %d bytes unfilled without an error" n
      | Some (Unix.WEXITED 0) -> ()
      | None -> Mon.event "huge_hardware_requests_still_being_filled" 1
      | Some _ -> Mon.event "huge_hardware_requests_without_answer" 1
  end

let f name quick thorough run = { Mon.name; quick; thorough; run }
let props = [
  "C18", [ f "stream" 6400 80000 stream_fam; f "far" 8 32 far_fam; f "farther" 1 2 farther_fam; f "interleaved" 1600 20000 multi_fam; f "short-seed" 8 40 short_fam;
           f "invalid" 800 10000 invalid_fam; f "huge" 1 2 huge_fam ];
  "C19", [ f "system" 4800 60000 system_fam; f "system-large" 480 8000 (system_fam ~large:true); f "hardware-large" 64 800 (hardware_fam ~large:true); f "real" 80 400 real_fam; f "device" 1600 20000 device_fam; f "eof" 1600 20000 eof_fam;
           f "fifo" 160 1000 fifo_fam; f "hardware" 4800 60000 hardware_fam; f "hardware-off" 48 48 hardware_off; f "hardware-off-one" 0 0 hardware_off_one;
           f "huge-system" 2 2 huge_system; f "huge-hardware" 2 2 huge_hardware ];
]
