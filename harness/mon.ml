(* Monitoring framework: case runner, counters, violations. *)
external status_open : string -> unit = "mon_status_open"
external status : string -> unit = "mon_status"
external arena_set_ : int -> unit = "mon_arena_set"
let arena_mode = ref 0
let arena_set m = arena_mode := m; arena_set_ m
(* what the monitor keeps must not live in the recycled arena *)
let keep s = if !arena_mode = 0 then s else begin
    arena_set_ 0; let s = Bytes.to_string (Bytes.of_string s) in arena_set_ !arena_mode; s end
external arena_check : unit -> int = "mon_arena_check"
external arena_reset : unit -> unit = "mon_arena_reset"
external arena_used : unit -> int = "mon_arena_used"
external fill_set : int -> unit = "mon_fill_set"
external gc_set : int -> int -> unit = "mon_gc_set"
external gc_stub_only : bool -> unit = "mon_gc_stub_only"
external gc_points : unit -> int = "mon_gc_points"
external track_free : bool -> unit = "mon_track_free"
external free_digest : unit -> int = "mon_free_digest"
external free_bytes : unit -> int = "mon_free_bytes"
external counter : int -> int = "mon_counter"
external zlive : unit -> int = "mon_zlive"
external ent_set : int -> int -> unit = "mon_ent_set"
(* how many calls in a row fail from the chosen one on (-1: all); after ent_set or read_set *)
external fault_count : int -> unit = "mon_fault_count"
external ent_byte : int -> int = "mon_ent_byte"
external ent_pos : unit -> int = "mon_ent_pos"
external ent_calls : unit -> int = "mon_ent_calls"
external snapshot : 'a -> Obj.t array -> bool -> string = "mon_snapshot"
external snap_stats : unit -> int * int * int = "mon_snap_stats"
external steps : (unit -> unit) -> int * int = "mon_steps"
external accel_seen : unit -> int * int * int = "mon_accel_seen"
external far_buffer : unit -> bytes = "mon_far"
external is_asan : unit -> bool = "mon_variant_asan"
external dirty_malloc : int -> unit = "mon_dirty_malloc"

external read_set : int -> int -> int -> int -> int -> unit = "mon_read_set"
external read_calls : unit -> int = "mon_read_calls"
external read_failed : unit -> int = "mon_read_failed"
external read_short : unit -> int = "mon_read_short"
external rr_set : int -> int -> int -> unit = "mon_rr_set"
external rr_byte : int -> int = "mon_rr_byte"
external rr_pos : unit -> int = "mon_rr_pos"
external rr_execs : unit -> int = "mon_rr_execs"
external rr_cpuid : unit -> int = "mon_rr_cpuid"
external rr_failures : unit -> int = "mon_rr_failures"

(* lines compared between build variants by the driver *)
let transcript = Buffer.create 1000

exception Violation of string
(* signature groups violations of the same kind (used for known findings) *)
let fail fmt = Printf.ksprintf (fun s -> raise (Violation s)) fmt

let evals = ref 0
let distinct : (int, unit) Hashtbl.t = Hashtbl.create 65536
let samples : string list ref = ref []
let nsamples = ref 0
let events : (string, int ref) Hashtbl.t = Hashtbl.create 64
let event name n =
  match Hashtbl.find_opt events name with
  | Some r -> r := !r + n
  | None -> Hashtbl.add events (keep name) (ref n)

let hash_str s = Hashtbl.hash_param 256 256 s lor (Hashtbl.seeded_hash_param 256 256 77 s lsl 30)

(* One oracle evaluation in situation [key]. *)
let seen key =
  incr evals;
  let h = hash_str key in
  if not (Hashtbl.mem distinct h) then begin
    if Hashtbl.length distinct < 2_000_000 then Hashtbl.add distinct h ();
    if !nsamples < 12 && (Hashtbl.length distinct) land 63 = 1 then begin
      incr nsamples; samples := keep key :: !samples
    end
  end

let hex s =
  let b = Buffer.create 64 in
  let n = String.length s in
  for i = 0 to min n 80 - 1 do Printf.bprintf b "%02x" (Char.code s.[i]) done;
  if n > 80 then Printf.bprintf b "...(%d bytes)" n;
  Buffer.contents b

let first_diff a b =
  let n = min (String.length a) (String.length b) in
  let rec go i = if i < n && a.[i] = b.[i] then go (i + 1) else i in go 0

(* check equality of observed and expected bytes *)
let check_eq key ~got ~want =
  seen key;
  if not (String.equal got want) then
    fail "%s: got %s want %s (lengths %d/%d, first difference at %d)" key
      (hex got) (hex want) (String.length got) (String.length want) (first_diff got want)

let check key b = seen key; if not b then fail "%s" key

let exn_name = function
  | Cryptokit.Error e ->
    (match e with
     | Cryptokit.Wrong_key_size -> "Wrong_key_size"
     | Wrong_IV_size -> "Wrong_IV_size"
     | Wrong_data_length -> "Wrong_data_length"
     | Bad_padding -> "Bad_padding"
     | Output_buffer_overflow -> "Output_buffer_overflow"
     | Incompatible_block_size -> "Incompatible_block_size"
     | Number_too_long -> "Number_too_long"
     | Seed_too_short -> "Seed_too_short"
     | Message_too_long -> "Message_too_long"
     | Bad_encoding -> "Bad_encoding"
     | Compression_error (fn, msg) ->
       (* the value raised by the C code must be the one OCaml code would build *)
       let e' = Cryptokit.Error (Cryptokit.Compression_error (fn ^ "", msg ^ "")) in
       if String.length fn > 1000 || String.length msg > 1000 || compare (Cryptokit.Error e) e' <> 0 || compare e' (Cryptokit.Error e) <> 0
       then "malformed Compression_error" else "Compression_error"
     | No_entropy_source -> "No_entropy_source"
     | Entropy_source_closed -> "Entropy_source_closed"
     | Compression_not_supported -> "Compression_not_supported")
  | Invalid_argument _ -> "Invalid_argument"
  | Assert_failure _ -> "Assert_failure"
  | e -> Printexc.to_string e

(* run f; Ok or exception name *)
let catch f = try Ok (f ()) with
  | Violation _ as e -> raise e
  | Out_of_memory -> Error "Out_of_memory"
  | e -> Error (exn_name e)

(* true in the variant that runs the huge cases *)
let first () = Sys.getenv_opt "VERIF_FIRST" <> None && not (is_asan ())

type family = {
  name : string;
  quick : int;            (* number of cases at quick tier *)
  thorough : int;
  run : int -> Gen0.t -> unit;   (* case index, generator *)
}

(* a place for n bytes in a buffer of more than 4 GB, at an offset around 2^30, 2^31 or 2^32 *)
let far_slot = ref 0
(* uses that may nest or run in several threads: only the outermost may straddle the mark *)
let far_users = ref 0
let far_use f = incr far_users; Fun.protect ~finally:(fun () -> decr far_users) f
let far ?(dst = false) g n =
  incr far_slot;
  let base = Gen0.pick g [| 1 lsl 30; 1 lsl 31; 1 lsl 31; (1 lsl 31) + (1 lsl 30); 1 lsl 32; 1 lsl 32 |] in
  let k = if dst then (1 lsl 22) + 16384 * (!far_slot land 63) + Gen0.int g 200 else if Gen0.chance g 6 && !far_users <= 1 then - (Gen0.int g (n + 40)) else 16384 * (1 + !far_slot mod 62) + Gen0.int g 200 in
  event "operations_at_offsets_from_2^30_to_2^32" 1;
  far_buffer (), base + k
let far_put ?dst g s =
  let b, o = far ?dst g (String.length s) in
  Bytes.blit_string s 0 b o (String.length s); b, o
let far_fits n = n <= 10000

(* run one case of a family in a process of its own; what it found wrong *)
let spawned = ref 0
let spawn_case fam case =
  incr spawned;
  let dir = Printf.sprintf "%s/cold.%d.%d" Sys.argv.(6) (Unix.getpid ()) !spawned in
  Unix.mkdir dir 0o700;
  let log = Filename.concat dir "log" in
  let fd = Unix.openfile log [ Unix.O_CREAT; Unix.O_WRONLY ] 0o600 in
  let inn = Unix.openfile "/dev/null" [ Unix.O_RDONLY ] 0 in
  let pid = Unix.create_process Sys.executable_name
      [| Sys.executable_name; Sys.argv.(1); Sys.argv.(2); Sys.argv.(3); "0"; "1"; dir; "1e9"; fam; string_of_int case |] inn fd fd in
  Unix.close fd; Unix.close inn;
  let rec wait () = try snd (Unix.waitpid [] pid) with Unix.Unix_error (Unix.EINTR, _, _) -> wait () in
  let st = wait () in
  let read f = try let ic = open_in_bin f in let s = really_input_string ic (in_channel_length ic) in close_in ic; s with Sys_error _ -> "" in
  let js = read (Filename.concat dir "0.json") and err = read log in
  Array.iter (fun f -> try Sys.remove (Filename.concat dir f) with Sys_error _ -> ()) (Sys.readdir dir);
  Unix.rmdir dir;
  event "fresh_processes" 1;
  seen ("fresh process " ^ fam);
  let tail s = let n = String.length s in if n > 400 then String.sub s (n - 400) 400 else s in
  match st with
  | Unix.WEXITED 0 when js <> "" ->
    let mark = "\"violations\":[" in
    let rec find i = if i + String.length mark > String.length js then -1 else if String.sub js i (String.length mark) = mark then i else find (i + 1) in
    let p = find 0 in
    if p < 0 then failwith "HARNESS-ERROR: fresh process: no result" else
      let r = String.sub js (p + String.length mark) (String.length js - p - String.length mark) in
      if Str_find.mem "\"harness_error\":\"" js then failwith ("HARNESS-ERROR: fresh process: " ^ js)
      else if r.[0] = ']' then None else Some r
  | Unix.WEXITED 3 -> failwith ("HARNESS-ERROR: fresh process: " ^ tail err)
  | Unix.WEXITED n when Str_find.mem "ut of memory" err || Str_find.mem "Out_of_memory" err -> failwith ("HARNESS-ERROR: fresh process: " ^ tail err)
  | Unix.WSIGNALED n when n = Sys.sigkill -> failwith "HARNESS-ERROR: fresh process killed"
  | Unix.WEXITED n -> Some (Printf.sprintf "exit code %d: %s" n (tail err))
  | Unix.WSIGNALED n | Unix.WSTOPPED n -> Some (Printf.sprintf "killed by signal %d: %s" n (tail err))
