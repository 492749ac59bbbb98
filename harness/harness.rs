// Analysis roots: one monomorphic entry point per public operation of the two libraries, with real
// files. This crate is only type-checked and lowered to MIR by the driver; nothing here is ever run.
#![allow(dead_code, unused, non_snake_case)]
extern crate corecrypto;
extern crate tools;

use corecrypto::cipher::Ciphers;
use corecrypto::header::HashingAlgorithm;
use corecrypto::header::Header;
use corecrypto::header::HeaderVersion;
use corecrypto::header::Keyslot;
use corecrypto::primitives::Algorithm;
use corecrypto::primitives::Mode;
use corecrypto::protected::Protected;
use corecrypto::stream::DecryptionStreams;
use corecrypto::stream::EncryptionStreams;
use std::cell::RefCell;
use std::fs::File;
use std::path::PathBuf;
use std::sync::Arc;
use tools::storage::Entry;
use tools::storage::Error as StorageError;
use tools::storage::FileStorage;
use tools::storage::Storage;

// ---- volaris-crypto
fn root_hdr_deserialize(f: &mut File) { let _r = Header::deserialize(f); sink(_r) }
fn root_hdr_serialize(h: &Header) { sink(h.serialize()) }
fn root_hdr_aad(h: &Header) { sink(h.create_aad()) }
fn root_hdr_write(h: &Header, f: &mut File) { sink(h.write(f)) }
fn root_hdr_size(h: &Header) { sink(h.get_size()) }
fn root_hash(a: &HashingAlgorithm, raw_key: Protected<Vec<u8>>, salt: &[u8; 16]) { sink(a.hash(raw_key, salt)) }
fn root_argon2id(raw_key: Protected<Vec<u8>>, salt: &[u8; 16], v: &HeaderVersion) { sink(corecrypto::key::argon2id_hash(raw_key, salt, v)) }
fn root_balloon(raw_key: Protected<Vec<u8>>, salt: &[u8; 16], v: &HeaderVersion) { sink(corecrypto::key::balloon_hash(raw_key, salt, v)) }
fn root_decrypt_master_key(raw_key: Protected<Vec<u8>>, h: &Header) { sink(corecrypto::key::decrypt_master_key(raw_key, h)) }
fn root_generate_passphrase(n: &i32) { sink(corecrypto::key::generate_passphrase(n)) }
fn root_gen_nonce(a: &Algorithm, m: &Mode) { sink(corecrypto::primitives::gen_nonce(a, m)) }
fn root_get_nonce_len(a: &Algorithm, m: &Mode) { sink(corecrypto::primitives::get_nonce_len(a, m)) }
fn root_gen_master_key() { sink(corecrypto::primitives::gen_master_key()) }
fn root_gen_salt() { sink(corecrypto::primitives::gen_salt()) }
fn root_cipher_encrypt(key: Protected<[u8; 32]>, alg: &Algorithm, nonce: &[u8], aad: &[u8], msg: &[u8]) {
    match Ciphers::initialize(key, alg) {
        Ok(c) => sink(Some(c.encrypt(nonce, corecrypto::Payload { msg, aad }))),
        Err(_) => sink(None::<u8>),
    }
}
fn root_cipher_decrypt(key: Protected<[u8; 32]>, alg: &Algorithm, nonce: &[u8], aad: &[u8], msg: &[u8]) {
    match Ciphers::initialize(key, alg) {
        Ok(c) => sink(Some(c.decrypt(nonce, corecrypto::Payload { msg, aad }))),
        Err(_) => sink(None::<u8>),
    }
}
fn root_cipher_inplace(key: Protected<[u8; 32]>, alg: &Algorithm, nonce: &[u8], aad: &[u8], buf: &mut Vec<u8>) {
    match Ciphers::initialize(key, alg) {
        Ok(c) => sink(Some(c.encrypt_in_place(nonce, aad, buf))),
        Err(_) => sink(None::<u8>),
    }
}
fn root_stream_enc_next(key: Protected<[u8; 32]>, alg: &Algorithm, nonce: &[u8], aad: &[u8], msg: &[u8]) {
    match EncryptionStreams::initialize(key, nonce, alg) {
        Ok(mut c) => sink(Some(c.encrypt_next(corecrypto::Payload { msg, aad }))),
        Err(_) => sink(None::<u8>),
    }
}
fn root_stream_enc_last(key: Protected<[u8; 32]>, alg: &Algorithm, nonce: &[u8], aad: &[u8], msg: &[u8]) {
    match EncryptionStreams::initialize(key, nonce, alg) {
        Ok(c) => sink(Some(c.encrypt_last(corecrypto::Payload { msg, aad }))),
        Err(_) => sink(None::<u8>),
    }
}
fn root_stream_dec_next(key: Protected<[u8; 32]>, alg: &Algorithm, nonce: &[u8], aad: &[u8], msg: &[u8]) {
    match DecryptionStreams::initialize(key, nonce, alg) {
        Ok(mut c) => sink(Some(c.decrypt_next(corecrypto::Payload { msg, aad }))),
        Err(_) => sink(None::<u8>),
    }
}
fn root_stream_dec_last(key: Protected<[u8; 32]>, alg: &Algorithm, nonce: &[u8], aad: &[u8], msg: &[u8]) {
    match DecryptionStreams::initialize(key, nonce, alg) {
        Ok(c) => sink(Some(c.decrypt_last(corecrypto::Payload { msg, aad }))),
        Err(_) => sink(None::<u8>),
    }
}
fn root_encrypt_file(key: Protected<[u8; 32]>, alg: &Algorithm, nonce: &[u8], aad: &[u8], reader: &mut File, writer: &mut File) {
    match EncryptionStreams::initialize(key, nonce, alg) {
        Ok(c) => sink(Some(c.encrypt_file(reader, writer, aad))),
        Err(_) => sink(None::<u8>),
    }
}
fn root_decrypt_file(key: Protected<[u8; 32]>, alg: &Algorithm, nonce: &[u8], aad: &[u8], reader: &mut File, writer: &mut File) {
    match DecryptionStreams::initialize(key, nonce, alg) {
        Ok(c) => sink(Some(c.decrypt_file(reader, writer, aad))),
        Err(_) => sink(None::<u8>),
    }
}
fn root_protected_drop(p: Protected<Vec<u8>>) { drop(p) }
fn root_protected_drop_arr(p: Protected<[u8; 32]>) { drop(p) }
fn root_protected_drop_string(p: Protected<String>) { drop(p) }
fn root_protected_debug(p: &Protected<Vec<u8>>, f: &mut std::fmt::Formatter<'_>) { sink(std::fmt::Debug::fmt(p, f)) }
fn root_protected_new(p: Vec<u8>) { sink(Protected::new(p)) }

// ---- volaris-tools
fn root_encrypt(req: tools::encrypt::Request<'_, File, File>) { sink(tools::encrypt::execute(req)) }
fn root_decrypt(req: tools::decrypt::Request<'_, File, File>) { sink(tools::decrypt::execute(req)) }
fn root_dump(req: tools::header::dump::Request<'_, File, File>) { sink(tools::header::dump::execute(req)) }
fn root_strip(req: tools::header::strip::Request<'_, File>) { sink(tools::header::strip::execute(req)) }
fn root_restore(req: tools::header::restore::Request<'_, File, File>) { sink(tools::header::restore::execute(req)) }
fn root_key_add(req: tools::key::add::Request<'_, File>) { sink(tools::key::add::execute(req)) }
fn root_key_change(req: tools::key::change::Request<'_, File>) { sink(tools::key::change::execute(req)) }
fn root_key_delete(req: tools::key::delete::Request<'_, File>) { sink(tools::key::delete::execute(req)) }
fn root_key_verify(req: tools::key::verify::Request<'_, File>) { sink(tools::key::verify::execute(req)) }
fn root_unlock_index(slots: &[Keyslot], raw_key_old: Protected<Vec<u8>>, alg: &Algorithm) {
    sink(tools::key::decrypt_v5_master_key_with_index(slots, raw_key_old, alg))
}
fn root_encrypt_master_key(master_key: Protected<[u8; 32]>, key_new: Protected<[u8; 32]>, nonce: &[u8], alg: &Algorithm) {
    sink(tools::key::encrypt_master_key(master_key, key_new, nonce, alg))
}
fn root_hash_file(req: tools::hash::Request<&mut File>) { sink(tools::hash::execute(tools::hasher::Blake3Hasher::default(), req)) }
fn root_blake3_new() { sink(tools::hasher::Blake3Hasher::default()) }
fn root_overwrite(req: tools::overwrite::Request<'_, File>) { sink(tools::overwrite::execute(req)) }
fn root_erase(stor: Arc<FileStorage>, req: tools::erase::Request<&str>) { sink(tools::erase::execute(stor, req)) }
fn root_erase_dir(stor: Arc<FileStorage>, req: tools::erase_dir::Request<File>) { sink(tools::erase_dir::execute(stor, req)) }
fn root_pack(stor: Arc<FileStorage>, req: tools::pack::Request<'_, File>) { sink(tools::pack::execute(stor, req)) }
fn root_unpack(stor: Arc<FileStorage>, req: tools::unpack::Request<'_, File>) { sink(tools::unpack::execute(stor, req)) }

fn root_st_create_temp_file(s: &FileStorage) { sink(Storage::create_temp_file(s)) }
fn root_st_create_dir_all(s: &FileStorage, p: &str) { sink(s.create_dir_all(p)) }
fn root_st_create_file(s: &FileStorage, p: &str) { sink(s.create_file(p)) }
fn root_st_read_file(s: &FileStorage, p: &str) { sink(s.read_file(p)) }
fn root_st_write_file(s: &FileStorage, p: &str) { sink(s.write_file(p)) }
fn root_st_edit_file(s: &FileStorage, p: &str) { sink(s.edit_file(p)) }
fn root_st_flush_file(s: &FileStorage, e: &Entry<File>) { sink(s.flush_file(e)) }
fn root_st_file_len(s: &FileStorage, e: &Entry<File>) { sink(s.file_len(e)) }
fn root_st_remove_file(s: &FileStorage, e: Entry<File>) { sink(s.remove_file(e)) }
fn root_st_remove_dir_all(s: &FileStorage, e: Entry<File>) { sink(s.remove_dir_all(e)) }
fn root_st_read_dir(s: &FileStorage, e: &Entry<File>) { sink(s.read_dir(e)) }

#[inline(never)]
fn sink<T>(t: T) { std::mem::forget(t) }
fn main() {}
