//! Reference prover: what every field of a proof is, stated once.
use crate::starks::config::{BatchedMerkleTree, FriMerkleTree};
use crate::starks::frame::Frame;
use crate::starks::fri::fri_decommit::FriDecommitment;
use crate::starks::proof::options::ProofOptions;
use crate::starks::proof::stark::{DeepPolynomialOpenings, StarkProof};
use crate::starks::trace::TraceTable;
use crate::starks::traits::AIR;
use crate::starks::transcript::{sample_z_ood, transcript_to_field, transcript_to_usize};

/// the value of the composition polynomial at a point, given the frame there
pub fn composition<F: IsFFTField, A: AIR<Field = F>>(
    air: &A, x: &FieldElement<F>, row: &Vec<FieldElement<F>>, evaluations: &Vec<FieldElement<F>>,
    rap: &A::RAPChallenges, boundary_alpha: &Vec<FieldElement<F>>, boundary_beta: &Vec<FieldElement<F>>,
    transition_alpha: &Vec<FieldElement<F>>, transition_beta: &Vec<FieldElement<F>>, g: &FieldElement<F>, n: usize,
) -> FieldElement<F> {
    let context = air.context();
    let boundary = air.boundary_constraints(rap);
    let bound = air.composition_poly_degree_bound();
    let mut r = FieldElement::<F>::zero();
    for j in 0..boundary.constraints.len() {
        let c = &boundary.constraints[j];
        let quotient = (&row[c.col] - &c.value) * (x - g.pow(c.step)).inv();
        r = r + quotient * (&boundary_alpha[j] * x.pow(bound - n) + &boundary_beta[j]);
    }
    let last = g.pow(n - 1);
    for j in 0..context.num_transition_constraints {
        let d = context.transition_degrees[j];
        let adjusted = &transition_alpha[j] * x.pow(bound - n * (d - 1)) + &transition_beta[j];
        let mut exemption = FieldElement::<F>::one();
        for k in 1..context.transition_exemptions[j] + 1 {
            exemption = exemption * (x - last.pow(k));
        }
        r = r + &evaluations[j] * exemption * adjusted * (x.pow(n) - FieldElement::<F>::one()).inv();
    }
    r
}

pub fn prove<F: IsFFTField, A: AIR<Field = F>>(main_trace: &TraceTable<F>, pub_input: &A::PublicInputs, proof_options: &ProofOptions) -> StarkProof<F> {
    let n = main_trace.table.len() / main_trace.n_cols;
    let air = A::new(n, pub_input, proof_options);
    let context = air.context();
    let options = air.options();
    let blowup = options.blowup_factor as usize;
    let lde_size = n * blowup;
    let h = FieldElement::<F>::from(options.coset_offset);
    let g = F::get_primitive_root_of_unity(n.trailing_zeros() as u64).unwrap();
    let w = F::get_primitive_root_of_unity(lde_size.trailing_zeros() as u64).unwrap();
    let trace_domain: Vec<FieldElement<F>> = (0..n).map(|i| g.pow(i)).collect();
    let lde_domain: Vec<FieldElement<F>> = (0..lde_size).map(|i| &h * w.pow(i)).collect();
    let nb_rows = context.transition_offsets.len();
    let layers = std::cmp::max(n.trailing_zeros() as usize, 1);
    let nt = context.num_transition_constraints;

    // trace commitments
    let mut transcript = DefaultTranscript::new();
    let mut polys: Vec<Polynomial<FieldElement<F>>> = Vec::new();
    for c in 0..main_trace.n_cols {
        let column: Vec<FieldElement<F>> = (0..n).map(|r| main_trace.table[r * main_trace.n_cols + c].clone()).collect();
        polys.push(Polynomial::interpolate_fft(&column).unwrap());
    }
    let main_columns = main_trace.n_cols;
    let main_rows: Vec<Vec<FieldElement<F>>> = lde_domain.iter().map(|x| (0..main_columns).map(|c| polys[c].evaluate(x)).collect()).collect();
    let main_tree = BatchedMerkleTree::<F>::build(&main_rows);
    transcript.append(&main_tree.root);
    let rap = air.build_rap_challenges(&mut transcript);
    let aux_trace = air.build_auxiliary_trace(main_trace, &rap);
    let mut trees = vec![main_tree.clone()];
    let mut roots = vec![main_tree.root];
    if aux_trace.n_cols > 0 {
        for c in 0..aux_trace.n_cols {
            let column: Vec<FieldElement<F>> = (0..n).map(|r| aux_trace.table[r * aux_trace.n_cols + c].clone()).collect();
            polys.push(Polynomial::interpolate_fft(&column).unwrap());
        }
        let aux_rows: Vec<Vec<FieldElement<F>>> = lde_domain.iter().map(|x| (0..aux_trace.n_cols).map(|c| polys[main_columns + c].evaluate(x)).collect()).collect();
        let aux_tree = BatchedMerkleTree::<F>::build(&aux_rows);
        transcript.append(&aux_tree.root);
        trees.push(aux_tree.clone());
        roots.push(aux_tree.root);
    }
    let columns = polys.len();
    let lde_rows: Vec<Vec<FieldElement<F>>> = lde_domain.iter().map(|x| (0..columns).map(|c| polys[c].evaluate(x)).collect()).collect();

    // composition polynomial
    let nb = air.boundary_constraints(&rap).constraints.len();
    let boundary_alpha: Vec<FieldElement<F>> = (0..nb).map(|_| transcript_to_field(&mut transcript)).collect();
    let boundary_beta: Vec<FieldElement<F>> = (0..nb).map(|_| transcript_to_field(&mut transcript)).collect();
    let transition_alpha: Vec<FieldElement<F>> = (0..nt).map(|_| transcript_to_field(&mut transcript)).collect();
    let transition_beta: Vec<FieldElement<F>> = (0..nt).map(|_| transcript_to_field(&mut transcript)).collect();
    let mut values: Vec<FieldElement<F>> = Vec::new();
    for i in 0..lde_size {
        let mut data: Vec<FieldElement<F>> = Vec::new();
        for k in 0..nb_rows {
            for c in 0..columns {
                data.push(lde_rows[(i + context.transition_offsets[k] * blowup) % lde_size][c].clone());
            }
        }
        let frame = Frame { data, row_width: columns };
        let evaluations = air.compute_transition(&frame, &rap);
        values.push(composition(&air, &lde_domain[i], &lde_rows[i], &evaluations, &rap, &boundary_alpha, &boundary_beta, &transition_alpha, &transition_beta, &g, n));
    }
    let composition_poly = Polynomial::interpolate_offset_fft(&values, &h).unwrap();
    let (even, odd) = composition_poly.even_odd_decomposition();
    let composition_rows: Vec<Vec<FieldElement<F>>> = lde_domain.iter().map(|x| vec![even.evaluate(x), odd.evaluate(x)]).collect();
    let composition_tree = BatchedMerkleTree::<F>::build(&composition_rows);
    transcript.append(&composition_tree.root);

    // out of domain values
    let z: FieldElement<F> = sample_z_ood(&lde_domain, &trace_domain, &mut transcript);
    let z2 = &z * &z;
    let even_z = even.evaluate(&z2);
    let odd_z = odd.evaluate(&z2);
    transcript.append(&even_z.to_bytes_be());
    transcript.append(&odd_z.to_bytes_be());
    let mut ood: Vec<FieldElement<F>> = Vec::new();
    for k in 0..nb_rows {
        for c in 0..columns {
            ood.push(polys[c].evaluate(&(&z * g.pow(context.transition_offsets[k]))));
        }
    }
    for k in 0..nb_rows {
        for c in 0..columns {
            transcript.append(&ood[k * columns + c].to_bytes_be());
        }
    }

    // DEEP polynomial
    let gamma_even: FieldElement<F> = transcript_to_field(&mut transcript);
    let gamma_odd: FieldElement<F> = transcript_to_field(&mut transcript);
    let gamma: Vec<FieldElement<F>> = (0..nb_rows * context.trace_columns).map(|_| transcript_to_field(&mut transcript)).collect();
    let mut deep = &gamma_even * (&even - &even_z).ruffini_division(&z2) + &gamma_odd * (&odd - &odd_z).ruffini_division(&z2);
    for c in 0..columns {
        for k in 0..nb_rows {
            let point = &z * g.pow(context.transition_offsets[k]);
            deep = deep + &gamma[c * nb_rows + k] * (&polys[c] - &ood[k * columns + c]).ruffini_division(&point);
        }
    }

    // FRI layers
    let mut poly = deep;
    let mut offset = h.clone();
    let mut size = lde_size;
    let mut fri_values: Vec<Vec<FieldElement<F>>> = Vec::new();
    let mut fri_trees: Vec<FriMerkleTree<F>> = Vec::new();
    let mut fri_roots: Vec<Commitment> = Vec::new();
    let mut sizes: Vec<usize> = Vec::new();
    for k in 0..layers {
        if k > 0 {
            let zeta: FieldElement<F> = transcript_to_field(&mut transcript);
            let (e, o) = poly.even_odd_decomposition();
            poly = e + zeta * o;
            offset = &offset * &offset;
            size = size / 2;
        }
        let layer: Vec<FieldElement<F>> = poly.evaluate_offset_fft(1, Some(size), &offset).unwrap();
        let tree = FriMerkleTree::<F>::build(&layer);
        transcript.append(&tree.root);
        fri_roots.push(tree.root);
        fri_trees.push(tree);
        fri_values.push(layer);
        sizes.push(size);
    }
    let zeta: FieldElement<F> = transcript_to_field(&mut transcript);
    let (e, o) = poly.even_odd_decomposition();
    let last_value = (e + zeta * o).evaluate(&FieldElement::<F>::zero());
    transcript.append(&last_value.to_bytes_be());

    // queries
    let seed = transcript.challenge();
    let nonce = crate::starks::grinding::generate_nonce_with_grinding(&seed, options.grinding_factor).unwrap();
    transcript.append(&nonce.to_be_bytes());
    let iota: Vec<usize> = (0..options.fri_number_of_queries).map(|_| transcript_to_usize(&mut transcript) % lde_size).collect();
    let mut query_list: Vec<FriDecommitment<F>> = Vec::new();
    let mut openings: Vec<DeepPolynomialOpenings<F>> = Vec::new();
    for s in 0..options.fri_number_of_queries {
        query_list.push(FriDecommitment {
            layers_auth_paths: (0..layers).map(|k| fri_trees[k].get_proof_by_pos(iota[s] % sizes[k]).unwrap()).collect(),
            layers_auth_paths_sym: (0..layers).map(|k| fri_trees[k].get_proof_by_pos((iota[s] + sizes[k] / 2) % sizes[k]).unwrap()).collect(),
            layers_evaluations: (0..layers).map(|k| fri_values[k][iota[s] % sizes[k]].clone()).collect(),
            layers_evaluations_sym: (0..layers).map(|k| fri_values[k][(iota[s] + sizes[k] / 2) % sizes[k]].clone()).collect(),
        });
        openings.push(DeepPolynomialOpenings {
            lde_composition_poly_proof: composition_tree.get_proof_by_pos(iota[s]).unwrap(),
            lde_composition_poly_even_evaluation: even.evaluate(&lde_domain[iota[s]]),
            lde_composition_poly_odd_evaluation: odd.evaluate(&lde_domain[iota[s]]),
            lde_trace_merkle_proofs: trees.iter().map(|t| t.get_proof_by_pos(iota[s]).unwrap()).collect(),
            lde_trace_evaluations: lde_rows[iota[s]].clone(),
        });
    }

    StarkProof {
        trace_length: n,
        lde_trace_merkle_roots: roots,
        trace_ood_frame_evaluations: Frame { data: ood, row_width: columns },
        composition_poly_root: composition_tree.root,
        composition_poly_even_ood_evaluation: even_z,
        composition_poly_odd_ood_evaluation: odd_z,
        fri_layers_merkle_roots: fri_roots,
        fri_last_value: last_value,
        query_list,
        deep_poly_openings: openings,
        nonce,
    }
}
