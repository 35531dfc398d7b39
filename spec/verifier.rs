//! Reference verifier: every check of the protocol, stated once, over lists whose lengths are
//! those fixed by the statement.
use crate::starks::config::{BatchedMerkleTreeBackend, FriMerkleTreeBackend};
use crate::starks::grinding::hash_transcript_with_int_and_get_leading_zeros;
use crate::starks::proof::options::ProofOptions;
use crate::starks::proof::stark::StarkProof;
use crate::starks::traits::AIR;
use crate::starks::transcript::{sample_z_ood, transcript_to_field, transcript_to_usize};

pub fn verify<F: IsFFTField, A: AIR<Field = F>>(proof: &StarkProof<F>, pub_input: &A::PublicInputs, proof_options: &ProofOptions) -> bool {
    if !proof.trace_length.is_power_of_two() {
        return false;
    }
    let air = A::new(proof.trace_length, pub_input, proof_options);
    let context = air.context();
    let options = air.options();
    let n = air.trace_length();
    let columns = context.trace_columns;
    let rows = context.transition_offsets.len();
    let queries = options.fri_number_of_queries;
    let log_n = n.trailing_zeros();
    let layers = std::cmp::max(log_n as usize, 1);
    let commitments = if air.number_auxiliary_rap_columns() > 0 { 2 } else { 1 };
    let log_lde = (n * options.blowup_factor as usize).trailing_zeros();
    let lde_size = n * options.blowup_factor as usize;
    let frame = &proof.trace_ood_frame_evaluations;

    // the shape of the proof
    if proof.lde_trace_merkle_roots.len() != commitments
        || frame.row_width != columns
        || frame.data.len() / frame.row_width != rows
        || proof.fri_layers_merkle_roots.len() != layers
        || proof.query_list.len() != queries
        || proof.deep_poly_openings.len() != queries
    {
        return false;
    }
    for q in proof.query_list.iter() {
        if q.layers_auth_paths.len() != layers
            || q.layers_auth_paths_sym.len() != layers
            || q.layers_evaluations.len() != layers
            || q.layers_evaluations_sym.len() != layers
        {
            return false;
        }
    }
    for o in proof.deep_poly_openings.iter() {
        if o.lde_trace_merkle_proofs.len() != commitments || o.lde_trace_evaluations.len() != columns {
            return false;
        }
    }

    // domains
    let g = F::get_primitive_root_of_unity(log_n as u64).unwrap();
    let w = F::get_primitive_root_of_unity(log_lde as u64).unwrap();
    let h = FieldElement::<F>::from(options.coset_offset);
    let trace_domain: Vec<FieldElement<F>> = (0..n).map(|i| g.pow(i)).collect();
    let lde_domain: Vec<FieldElement<F>> = (0..lde_size).map(|i| &h * w.pow(i)).collect();

    // the transcript
    let mut transcript = DefaultTranscript::new();
    transcript.append(&proof.lde_trace_merkle_roots[0]);
    let rap = air.build_rap_challenges(&mut transcript);
    if commitments == 2 {
        transcript.append(&proof.lde_trace_merkle_roots[1]);
    }
    let boundary = air.boundary_constraints(&rap);
    let nb = boundary.constraints.len();
    let nt = context.num_transition_constraints;
    let boundary_alpha: Vec<FieldElement<F>> = (0..nb).map(|_| transcript_to_field(&mut transcript)).collect();
    let boundary_beta: Vec<FieldElement<F>> = (0..nb).map(|_| transcript_to_field(&mut transcript)).collect();
    let transition_alpha: Vec<FieldElement<F>> = (0..nt).map(|_| transcript_to_field(&mut transcript)).collect();
    let transition_beta: Vec<FieldElement<F>> = (0..nt).map(|_| transcript_to_field(&mut transcript)).collect();
    transcript.append(&proof.composition_poly_root);
    let z: FieldElement<F> = sample_z_ood(&lde_domain, &trace_domain, &mut transcript);
    transcript.append(&proof.composition_poly_even_ood_evaluation.to_bytes_be());
    transcript.append(&proof.composition_poly_odd_ood_evaluation.to_bytes_be());
    for r in 0..rows {
        for c in 0..columns {
            transcript.append(&frame.data[r * columns + c].to_bytes_be());
        }
    }
    let gamma_even: FieldElement<F> = transcript_to_field(&mut transcript);
    let gamma_odd: FieldElement<F> = transcript_to_field(&mut transcript);
    let mut gamma: Vec<Vec<FieldElement<F>>> = Vec::new();
    for _ in 0..columns {
        let mut row: Vec<FieldElement<F>> = Vec::new();
        for _ in 0..rows {
            row.push(transcript_to_field(&mut transcript));
        }
        gamma.push(row);
    }
    let mut zeta: Vec<FieldElement<F>> = Vec::new();
    for k in 0..layers {
        transcript.append(&proof.fri_layers_merkle_roots[k]);
        zeta.push(transcript_to_field(&mut transcript));
    }
    transcript.append(&proof.fri_last_value.to_bytes_be());
    let seed = transcript.challenge();
    if hash_transcript_with_int_and_get_leading_zeros(&seed, proof.nonce) < options.grinding_factor {
        return false;
    }
    transcript.append(&proof.nonce.to_be_bytes());
    let mut iota: Vec<usize> = Vec::new();
    for _ in 0..queries {
        iota.push(transcript_to_usize(&mut transcript) % 2_usize.pow(log_lde));
    }

    // the composition polynomial at z
    let bound = air.composition_poly_degree_bound();
    let mut composition = FieldElement::<F>::zero();
    for j in 0..nb {
        let c = &boundary.constraints[j];
        let quotient = (&frame.data[c.col] - &c.value) * (&z - g.pow(c.step)).inv();
        composition = composition + quotient * (&boundary_alpha[j] * z.pow(bound - n) + &boundary_beta[j]);
    }
    let evaluations = air.compute_transition(frame, &rap);
    let last = g.pow(n - 1);
    for j in 0..std::cmp::min(std::cmp::min(evaluations.len(), context.transition_degrees.len()), std::cmp::min(context.transition_exemptions.len(), nt)) {
        let d = context.transition_degrees[j];
        let adjusted = &transition_alpha[j] * z.pow(bound - n * (d - 1)) + &transition_beta[j];
        let mut exemption = FieldElement::<F>::one();
        for k in 1..context.transition_exemptions[j] + 1 {
            exemption = exemption * (&z - last.pow(k));
        }
        composition = composition + &evaluations[j] * exemption * adjusted * (z.pow(n) - FieldElement::<F>::one()).inv();
    }
    if &proof.composition_poly_even_ood_evaluation + &z * &proof.composition_poly_odd_ood_evaluation != composition {
        return false;
    }

    let main_columns = columns - air.number_auxiliary_rap_columns();
    let half = FieldElement::<F>::from(2).inv();
    for s in 0..queries {
        let query = &proof.query_list[s];
        let opening = &proof.deep_poly_openings[s];
        let x = &lde_domain[iota[s]];

        // openings of the composition columns and of every trace commitment
        let both = vec![opening.lde_composition_poly_even_evaluation.clone(), opening.lde_composition_poly_odd_evaluation.clone()];
        if !opening.lde_composition_poly_proof.verify::<BatchedMerkleTreeBackend<F>>(&proof.composition_poly_root, iota[s], &both) {
            return false;
        }
        let parts = vec![opening.lde_trace_evaluations[..main_columns].to_vec(), opening.lde_trace_evaluations[main_columns..].to_vec()];
        for t in 0..commitments {
            if !opening.lde_trace_merkle_proofs[t].verify::<BatchedMerkleTreeBackend<F>>(&proof.lde_trace_merkle_roots[t], iota[s], &parts[t]) {
                return false;
            }
        }

        // the DEEP value
        let z2 = &z * &z;
        let mut deep = (&opening.lde_composition_poly_even_evaluation - &proof.composition_poly_even_ood_evaluation) * &gamma_even * (x - &z2).inv();
        deep = deep + (&opening.lde_composition_poly_odd_evaluation - &proof.composition_poly_odd_ood_evaluation) * &gamma_odd * (x - &z2).inv();
        for c in 0..columns {
            for r in 0..rows {
                let point = &z * g.pow(context.transition_offsets[r]);
                deep = deep + (&opening.lde_trace_evaluations[c] - &frame.data[r * columns + c]) * (x - point).inv() * &gamma[c][r];
            }
        }
        if deep != query.layers_evaluations[0] {
            return false;
        }

        // FRI
        let mut v = query.layers_evaluations[0].clone();
        for k in 0..layers {
            let size = 1 << (log_lde - k as u32);
            let sym = (iota[s] + size / 2) % size;
            if !query.layers_auth_paths[k].verify::<FriMerkleTreeBackend<F>>(&proof.fri_layers_merkle_roots[k], iota[s], &query.layers_evaluations[k]) {
                return false;
            }
            if !query.layers_auth_paths_sym[k].verify::<FriMerkleTreeBackend<F>>(&proof.fri_layers_merkle_roots[k], sym, &query.layers_evaluations_sym[k]) {
                return false;
            }
            let x_inv = x.inv().pow(1 << k);
            v = (&v + &query.layers_evaluations_sym[k]) * &half + &zeta[k] * (&v - &query.layers_evaluations_sym[k]) * &half * x_inv;
            if k + 1 < layers {
                if v != query.layers_evaluations[k + 1] {
                    return false;
                }
            } else if v != proof.fri_last_value {
                return false;
            }
        }
    }
    true
}
