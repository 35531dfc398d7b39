//! What the checking constructors must compute.
use crate::starks::proof::errors::InsecureOptionError;
use crate::starks::proof::options::ProofOptions;

fn field_too_small<F: IsPrimeField>(target: u8) -> bool {
    F::field_bit_size() <= target as usize + 40
}

fn blowup_bits(blowup: u8) -> usize {
    // eight trailing zeros only for zero, which adds nothing
    (blowup.trailing_zeros() % 8) as usize
}

pub fn conjectured<F: IsPrimeField>(blowup_factor: u8, fri_number_of_queries: usize, coset_offset: u64, grinding_factor: u8, security_target: u8) -> Result<ProofOptions, InsecureOptionError> {
    if field_too_small::<F>(security_target) {
        return Err(InsecureOptionError::FieldSize);
    }
    let claimed = grinding_factor as usize + blowup_bits(blowup_factor) * fri_number_of_queries;
    if claimed <= security_target as usize + 1 {
        return Err(InsecureOptionError::SecurityBits);
    }
    Ok(ProofOptions { blowup_factor, fri_number_of_queries, coset_offset, grinding_factor })
}

pub fn proven<F: IsPrimeField>(blowup_factor: u8, fri_number_of_queries: usize, coset_offset: u64, grinding_factor: u8, security_target: u8) -> Result<ProofOptions, InsecureOptionError> {
    if field_too_small::<F>(security_target) {
        return Err(InsecureOptionError::FieldSize);
    }
    let claimed = grinding_factor as usize + blowup_bits(blowup_factor) * fri_number_of_queries / 2;
    if claimed <= security_target as usize {
        return Err(InsecureOptionError::SecurityBits);
    }
    Ok(ProofOptions { blowup_factor, fri_number_of_queries, coset_offset, grinding_factor })
}
