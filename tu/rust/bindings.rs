// Declarations bindgen generates from src/c_bindings/c_wrapper.h (bindgen is not available offline).
#[repr(C)] pub struct ByteArray { pub data: *mut u8, pub length: usize }
extern "C" {
 pub fn create_discriminant_wrapper(seed: *const u8, seed_size: usize, size_bits: usize, result: *mut u8) -> bool;
 pub fn prove_wrapper(challenge_hash: *const u8, challenge_size: usize, x_s: *const u8, x_s_size: usize, discriminant_size_bits: usize, num_iterations: u64) -> ByteArray;
 pub fn verify_n_wesolowski_wrapper(discriminant_bytes: *const u8, discriminant_size: usize, x_s: *const u8, proof_blob: *const u8, proof_blob_size: usize, num_iterations: u64, recursion: u64) -> bool;
 pub fn delete_byte_array(array: ByteArray);
}
