"""Changes that break a property."""
VARIANTS = {}


def alarm(name, props, *edits):
    VARIANTS[name] = (props.split(), edits)


B, N, R, G, C, D, F, S, T, U, X = (
    "basic.py", "nuts.py", "rewriting.py", "gibbs.py", "conjugates.py", "dists.py", "ffbs.py", "sample.py", "types.py",
    "utils.py", "transforms.py",
)

# ---------------------------------------------------------------- C01

alarm("gp_alpha_scale", "C01", (C, "new_alpha_et = etuple(etuplize(at.add), alpha_lv, observed_rv_expr)", "new_alpha_et = etuple(etuplize(at.add), beta_lv, observed_rv_expr)"))
alarm("gp_rate_scale", "C01", (C, "etuple(etuplize(at.reciprocal), beta_lv), 1)", "beta_lv, 1)"))
alarm("gp_size_y", "C01", (C, "    Y_et = etuple(etuplize(at.random.poisson), var(), var(), var(), z_et)", "    y_size_lv = var()\n    Y_et = etuple(etuplize(at.random.poisson), var(), y_size_lv, var(), z_et)"), (C, "        size=z_size_lv,", "        size=y_size_lv,"))
alarm("bb_dtype", "C01", (C, "        dtype=p_type_idx_lv,", ""))
alarm("bb_beta_sum", "C01", (C, "        etuplize(at.sub), etuple(etuplize(at.add), beta_lv, n_lv), observed_rv_expr\n", "        etuplize(at.add), etuple(etuplize(at.sub), beta_lv, n_lv), observed_rv_expr\n"))
alarm("bb_clip", "C01", (C, "        etuplize(at.sub), etuple(etuplize(at.add), beta_lv, n_lv), observed_rv_expr\n", "        etuplize(at.maximum), beta_lv, etuple(etuplize(at.sub), n_lv, observed_rv_expr)\n"))
alarm("conj_stale_fn", "C01", (C, "    res = run(None, q, partial(beta_binomial_conjugateo, srng)(rv_et, q))", "    res = run(None, q, partial(beta_negative_binomial_conjugateo, srng)(rv_et, q))"))
alarm("gp_return_prior", "C01", (C, "    return [(gamma_rv, gamma_posterior, None)]", "    return [(rv_var, gamma_posterior, None)]"))

# ---------------------------------------------------------------- C02, C03

alarm("reg_ge", "C02", (G, "        X.shape[1] > X.shape[0],", "        X.shape[1] >= X.shape[0],"))
alarm("reg_swap", "C02", (G, "        X.shape[1] > X.shape[0],", "        X.shape[0] > X.shape[1],"))
alarm("reg_noise", "C02", (G, "return multivariate_normal_rue2005(srng, X.T @ (omega * z), Q)", "return multivariate_normal_rue2005(srng, X.T @ z, Q)"))
alarm("reg_diag", "C02", (G, "        at.diag(Q) + lmbdatau_inv**2,", "        at.diag(Q) + lmbdatau_inv,"))
alarm("reg_under_std", "C02", (G, "multivariate_normal_cong2017(srng, lmbdatau_inv**2, omega, X, z)", "multivariate_normal_cong2017(srng, lmbdatau_inv, omega, X, z)"))
alarm("reg_inc", "C02", (G, "    Q = at.subtensor.set_subtensor(", "    Q = at.subtensor.inc_subtensor("))
alarm("rue_triangular", "C03", (D, "    v = at.slinalg.solve_triangular(L.T, z, lower=False)", "    v = at.slinalg.solve_triangular(L, z, lower=True)"))
alarm("rue_lower", "C03", (D, "    w = at.slinalg.solve_triangular(L, b, lower=True)", "    w = at.slinalg.solve_triangular(L, b, lower=False)"))
alarm("rue_scalar_noise", "C03", (D, "    z = rng.standard_normal(size=L.shape[0])", "    z = rng.standard_normal()"))
alarm("rue_fixed_noise", "C03", (D, "    v = at.slinalg.solve_triangular(L.T, z, lower=False)\n    return u + v", "    v = at.slinalg.solve_triangular(L.T, z, lower=False)\n    return u - 2 * v"))
alarm("cong_overlap", "C03", (D, "y2 = (1 / at.sqrt(omega)) * z[a_rows:]", "y2 = (1 / at.sqrt(omega)) * z[:omega.shape[0]]"))
alarm("cong_sqrt", "C03", (D, "y2 = (1 / at.sqrt(omega)) * z[a_rows:]", "y2 = (1 / omega) * z[a_rows:]"))
alarm("cong_sign", "C03", (D, "t - phi @ y1 - y2", "t - phi @ y1 + phi @ y2"))
alarm("cong_omega", "C03", (D, "at.diag(B) + 1.0 / omega", "at.diag(B) + omega"))
alarm("cong_size", "C03", (D, "    z = rng.standard_normal(size=a_rows + omega.shape[0])", "    z = rng.standard_normal(size=2 * a_rows)"))
alarm("cong_alpha", "C03", (D, "return y1 + Ainv_phi @ alpha", "return y1 + phi.T @ alpha"))

# ---------------------------------------------------------------- C04

alarm("nb_h_z", "C04", (G, "z = 0.5 * (y - h) / w", "z = 0.5 * (h - y) / w"))
alarm("nb_pg_y", "C04", (G, "w = srng.gen(polyagamma, y + h, X @ beta)", "w = srng.gen(polyagamma, y, X @ beta)"))
alarm("nb_tau", "C04", (G, "tau_beta = at.reciprocal(beta_std)", "tau_beta = at.reciprocal(beta_std**2)"))
alarm("bern_pg_size", "C04", (G, "w = srng.gen(polyagamma, 1, X @ beta)", "w = srng.gen(polyagamma, X @ beta, 1)"))
alarm("bern_sign", "C04", (G, "bern_normal_posterior(srng, beta_rv, beta_std, -X, y)", "bern_normal_posterior(srng, beta_rv, beta_std, X, y)"))
alarm("bern_half", "C04", (G, "z = (y - 0.5) / w", "z = (y - 0.5) * w"))
alarm("nb_kernel_order", "C04", (G, "    beta_posterior = nbinom_normal_posterior(srng, beta_rv, beta_std, X, h, y)\n", "    beta_posterior = nbinom_normal_posterior(srng, beta_rv, beta_std, X, y, h)\n"))
alarm("nb_loc_for_std", "C04", (G, "    beta_std = beta_rv.owner.inputs[4]\n    beta_posterior = nbinom", "    beta_std = beta_rv.owner.inputs[3]\n    beta_posterior = nbinom"))

# ---------------------------------------------------------------- C05

alarm("hs_old_lambda", "C05", (G, "zeta_inv + 0.5 * (beta2 * lambda2_inv_new).sum() / sigma2", "zeta_inv + 0.5 * (beta2 * lmbda2_inv).sum() / sigma2"))
alarm("hs_shape", "C05", (G, "0.5 * (beta.shape[0] + 1)", "0.5 * beta.shape[0] + 1"))
alarm("hs_sqrt", "C05", (G, "    tau2_update = at.reciprocal(at.sqrt(tau2_inv_new))", "    tau2_update = at.reciprocal(tau2_inv_new)"))
alarm("hs_sigma", "C05", (G, "upsilon_inv + 0.5 * beta2 * tau2_inv / sigma2", "upsilon_inv + 0.5 * beta2 * tau2_inv * sigma2"))
alarm("hs_shared_aux", "C05", (G, "    zeta_inv = srng.exponential(at.reciprocal(1 + tau2_inv))", "    zeta_inv = upsilon_inv.mean()"))
alarm("hs_aux_rate", "C05", (G, "    upsilon_inv = srng.exponential(at.reciprocal(1 + lmbda2_inv))", "    upsilon_inv = srng.exponential(at.reciprocal(1 + lambda2))"))
alarm("hs_no_square", "C05", (G, "    tau2 = tau_rv**2\n", "    tau2 = tau_rv\n"))
alarm("hs_swap_updates", "C05", (G, "return [(lambda_rv, lambda_posterior, None), (tau_rv, tau_posterior, None)]", "return [(tau_rv, lambda_posterior, None), (lambda_rv, tau_posterior, None)]"))
alarm("hs_sum_axis", "C05", (G, "(beta2 * lambda2_inv_new).sum()", "(beta2.sum() * lambda2_inv_new.sum())"))

# ---------------------------------------------------------------- C06

alarm("crt_range", "C06", (G, "n_i = at.arange(2, y_i + 1)", "n_i = at.arange(1, y_i + 1)"))
alarm("crt_range_end", "C06", (G, "n_i = at.arange(2, y_i + 1)", "n_i = at.arange(2, y_i)"))
alarm("crt_zero", "C06", (G, "at.switch(y_i < 1, 0,", "at.switch(y_i < 2, 0,"))
alarm("crt_prob", "C06", (G, "srng.bernoulli(h / (n_i - 1 + h))", "srng.bernoulli(h / (n_i + h))"))
alarm("crt_one_draw", "C06", (G, "srng.bernoulli(h / (n_i - 1 + h)).sum()", "srng.bernoulli((h / (n_i - 1 + h)).sum())"))
alarm("disp_rate", "C06", (G, "a + L_sum, at.reciprocal(b) - at.sum(at.log(1 - p), axis=-1)", "a + L_sum, b - at.sum(at.log(1 - p), axis=-1)"))
alarm("disp_mean", "C06", (G, "at.sum(at.log(1 - p), axis=-1)", "at.log(1 - p.mean(axis=-1))"))
alarm("disp_y", "C06", (G, "L_sum = Ls.sum(axis=-1)", "L_sum = y.sum(axis=-1)"))

# ---------------------------------------------------------------- C07

alarm("ffbs_gamma_T", "C07", (F, "at.dot(alpha_nm1, Gamma_n)", "at.dot(Gamma_n, alpha_nm1)"))
alarm("ffbs_backward_row", "C07", (F, "Gamma_np1[:, state_n]", "Gamma_np1[state_n]"))
alarm("ffbs_order", "C07", (F, "return state_samples_rev[::-1], updates", "return state_samples_rev, updates"))
alarm("ffbs_gammas", "C07", (F, "Gammas[1:]]", "Gammas[: N - 1]]"))
alarm("ffbs_alphas", "C07", (F, "alphas.T[: N - 1]", "alphas.T[1:]"))
alarm("ffbs_no_backwards", "C07", (F, "        go_backwards=True,\n", ""))
alarm("ffbs_underflow", "C07", (F, "alpha_n / lower_prec_bound, alpha_n\n", "alpha_n + lower_prec_bound, alpha_n\n"))
alarm("ffbs_last", "C07", (F, "    alpha_N = alphas[..., N - 1]", "    alpha_N = alphas[..., 0]"))
alarm("ffbs_fwd_updates", "C07", (F, "return state_samples_rev[::-1], updates", "return state_samples_rev[::-1], _"))
alarm("ffbs_max_elementwise", "C07", (F, "lik_n = at.exp(log_lik_n - log_lik_n.max())", "lik_n = at.exp(log_lik_n) / log_lik_n"))

# ---------------------------------------------------------------- C08

alarm("match_any", "C08", (G, "isinstance(var, Constant) and bool(np.all(var.data == value))", "isinstance(var, Constant) and bool(np.any(var.data == value))"))
alarm("gamma_ndim", "C08", (G, "if graph.owner is None or graph.type.ndim != 0:", "if graph.owner is None or graph.type.ndim > 1:"))
alarm("hs_no_local", "C08", (G, "    if lmbda_rv.type.broadcastable != graph.type.broadcastable:", "    if lmbda_rv.type.ndim > graph.type.ndim:"))
alarm("hs_scale", "C08", (G, "(is_filled_with(loc, 0) and is_filled_with(scale, 1))", "(is_filled_with(loc, 0) or is_filled_with(scale, 1))"))
alarm("hs_first_only", "C08", (G, "for shrinkage_rv in (lmbda_rv, tau_rv):", "for shrinkage_rv in (lmbda_rv,):"))
alarm("normal_center", "C08", (G, "        and is_filled_with(var.owner.inputs[3], 0)\n", ""))
alarm("conj_repeated", "C08", (C, "return latent_rv.type.broadcastable != observed_rv.type.broadcastable", "return latent_rv.type.ndim > observed_rv.type.ndim"))
alarm("bern_minus", "C08", (G, "is_filled_with(eval_if_etuple(s[neg_one_lv]), -1):\n        raise ValueError(\n            \"Not a Bernoulli", "is_filled_with(eval_if_etuple(s[neg_one_lv]), 1):\n        raise ValueError(\n            \"Not a Bernoulli"))
alarm("hs_halfnormal", "C08", (G, "halfcauchy_2.owner.op, type(at.random.halfcauchy)", "halfcauchy_2.owner.op, RandomVariable"), (G, "from aesara.tensor.random.basic import", "from aesara.tensor.random.op import RandomVariable\nfrom aesara.tensor.random.basic import"))

# ---------------------------------------------------------------- C09, C10

alarm("init_no_clone", "C09", (B, "{rv: rv.clone() for rv in random_vars}", "{rv: rv for rv in random_vars}"))
alarm("init_keys", "C09", (B, "        new_to_old_rvs[rv]: init_var for rv, init_var in rvs_to_init_vals.items()", "        rv: init_var for rv, init_var in rvs_to_init_vals.items()"))
alarm("steps_observed", "C09", (B, "        for rv, step in posterior_sample_steps.items()\n        if rv not in obs_rvs_to_values\n", "        for rv, step in posterior_sample_steps.items()\n"))
alarm("nuts_all", "C09", (B, "        if not rv_steps:\n            rvs_without_samplers.append(rv)\n            continue\n", "        rvs_without_samplers.append(rv)\n        if not rv_steps:\n            continue\n"))
alarm("drop_no_sampler", "C09", (B, "            {rv: nuts_sample_steps[model_rvs[rv]] for rv in rvs_without_samplers}", "            {rv: nuts_sample_steps[model_rvs[rv]] for rv in rvs_without_samplers[:1]}"))
alarm("first_sampler", "C09", (B, "rv_steps.pop()", "rv_steps.pop(0)"))
alarm("stale_step", "C10", (B, "        posterior_sample_steps[rv] = step\n", ""), (B, "    # Use the NUTS sampler", "    posterior_sample_steps.update(new_steps)\n    # Use the NUTS sampler"), (B, "    for rv in fgraph.outputs:\n        if rv in obs", "    new_steps = {}\n    for rv in fgraph.outputs:\n        if rv in obs"), (B, "        step = sfgraph.outputs[0]\n", "        step = sfgraph.outputs[0]\n        new_steps[rv] = step\n"))
alarm("step_forward_order", "C10", (B, "            list(posterior_sample_steps.items())[::-1], import_missing=True", "            list(posterior_sample_steps.items()), import_missing=True"))
alarm("nuts_initial_realized", "C10", (B, "            model_rvs[rv]: vv for rv, vv in posterior_sample_steps.items()\n        }", "            model_rvs[rv]: rvs_to_init_vals.get(rv, vv) for rv, vv in posterior_sample_steps.items()\n        }"))
alarm("obs_not_replaced", "C10", (B, "    posterior_sample_steps.update(obs_rvs_to_values)\n", ""))
alarm("no_expand", "C10", (B, "        expand_subsumptions.rewrite(sfgraph)\n", ""))

# ---------------------------------------------------------------- C11

alarm("updates_overwrite", "C11", (B, "        posterior_updates.update(updates)\n        parameters", "        posterior_updates = updates\n        parameters"))
alarm("updates_offset", "C11", (B, "keys_offset = len(update_keys) + 1", "keys_offset = len(update_keys)"))
alarm("updates_keys_slice", "C11", (B, "            update_values = sfgraph.outputs[keys_offset:]", "            update_values = sfgraph.outputs[1:]"))
alarm("nuts_updates_order", "C11", (N, "    updates = dict(zip(updates.keys(), posterior[len(results) :]))", "    updates = dict(zip(updates.keys(), posterior[len(results) - 1 :]))"))
alarm("nuts_updates_reversed", "C11", (N, "    update_outputs = list(updates.values())", "    update_outputs = list(updates.values())[::-1]"))
alarm("disp_updates_drop", "C11", (G, "    update_inputs = [h_rng, *updates.keys()]", "    update_inputs = [*updates.keys()]"), (G, "    update_outputs = [h_rng.default_update, *updates.values()]", "    update_outputs = [*updates.values()]"))
alarm("disp_updates_shift", "C11", (G, "    updates = dict(zip(update_inputs, h_posterior.owner.outputs[1:]))", "    updates = dict(zip(update_inputs, h_posterior.owner.outputs))"))
alarm("crt_updates_lost", "C11", (G, "    return res, updates\n\n\ndef nbinom_dispersion", "    return res, {}\n\n\ndef nbinom_dispersion"))

# ---------------------------------------------------------------- C12

alarm("nuts_no_jac", "C12", (N, "        extra_rewrites=TransformValuesRewrite(transforms),\n", ""))
alarm("nuts_no_realized", "C12", (N, "        realized=realized_rvs_to_values,\n", ""))
alarm("nuts_init_untransformed", "C12", (N, "    rp_map = RaveledParamsMap(transformed_values)\n", "    rp_map = RaveledParamsMap(list(initial_values))\n"))
alarm("nuts_initial_q", "C12", (N, "    initial_q = rp_map.ravel_params(transformed_values)\n", "    initial_q = rp_map.ravel_params(list(initial_values))\n"))
alarm("nuts_forward_swap", "C12", (N, "res = transform.forward(vv,", "res = transform.backward(vv,"))
alarm("nuts_backward_skip", "C12", (N, "        res = transform.backward(vv, *get_transform_inputs(rv, rvs_to_values))\n        return res", "        return vv"))
alarm("nuts_params_order", "C12", (N, "        (step_size, inverse_mass_matrix),\n    )", "        (inverse_mass_matrix, step_size),\n    )"))
alarm("nuts_mass", "C12", (N, "*initial_state, step_size, inverse_mass_matrix)", "*initial_state, step_size, at.ones_like(inverse_mass_matrix))"))
alarm("nuts_placeholder_order", "C12", (N, "    rp_map.ref_params = placeholder_values\n", "    rp_map.ref_params = placeholder_values[::-1]\n"))
alarm("nuts_params_of_rv", "C12", (N, "    return clone_replace(rv.owner.inputs, rvs_to_values)", "    return rv.owner.inputs"))
alarm("nuts_step_old_values", "C12", (N, "    new_values = dict(realized_rvs_to_values)\n", "    new_values = dict(current_values)\n"), (N, "                    new_values,\n", "                    current_values,\n"))
alarm("nuts_results_swap", "C12 C17", (N, "    results = {rv: posterior[i] for i, rv in enumerate(to_sample_rvs)}", "    results = {rv: posterior[-1 - i] for i, rv in enumerate(to_sample_rvs)}"))

# ---------------------------------------------------------------- C13

alarm("ir_no_clone", "C13", (R, "        clone=clone,\n        memo=memo,", "        clone=False,\n        memo=memo,"))
alarm("ir_copy_inputs", "C13", (R, "        copy_orphans=False,\n        copy_inputs=False,\n        features", "        copy_orphans=True,\n        copy_inputs=True,\n        features"))
alarm("ir_update_in_place", "C13", (R, "    obs_rvs_to_values = {memo.get(k, k): v for k, v in obs_rvs_to_values.items()}\n", "    for k in list(obs_rvs_to_values):\n        obs_rvs_to_values[memo.get(k, k)] = obs_rvs_to_values.pop(k)\n"))
alarm("ir_memo_reverse", "C13", (R, "        new_rv: old_rv for old_rv, new_rv in zip(rv_outputs, fgraph.outputs)", "        new_rv: old_rv for old_rv, new_rv in memo.items()"))
alarm("ir_memo_empty", "C13", (R, "    memo = {v: v for v in obs_rvs_to_values.values()}\n", "    memo = {}\n"))
alarm("ir_no_clone_arg", "C13", (B, "    fgraph, obs_rvs_to_values, memo, new_to_old_rvs = construct_ir_fgraph(\n        obs_rvs_to_values\n    )", "    fgraph, obs_rvs_to_values, memo, new_to_old_rvs = construct_ir_fgraph(\n        obs_rvs_to_values, clone=False\n    )"))

# ---------------------------------------------------------------- C14

alarm("sub_right", "C14", (R, "            el_order = ds_order[:ndim_diff]", "            el_order = ds_order[-ndim_diff:]"))
alarm("sub_any", "C14", (R, "not all(d == \"x\" for d in el_order)", "not any(d == \"x\" for d in el_order)"))
alarm("sub_no_perm", "C14", (R, "            if new_ds_order and not new_ds_order == tuple(range(len(new_ds_order))):", "            if new_ds_order and len(new_ds_order) != dim_shuffle_input.type.ndim:"))
alarm("sub_sorted_perm", "C14", (R, "            if new_ds_order and not new_ds_order == tuple(range(len(new_ds_order))):", "            if new_ds_order and not sorted(new_ds_order) == list(range(len(new_ds_order))):"))
alarm("inline_copy", "C14", (R, "[*node.inputs, *op.shared_inputs]", "[*node.inputs[::-1], *op.shared_inputs]"))
alarm("inline_orphans", "C14", (R, "        copy_orphans=False,\n        memo=dict", "        copy_orphans=True,\n        memo=dict"))
alarm("sub_inputs_const", "C14", (R, "    new_out = new_op(*used_inputs)\n", "    new_out = new_op(*new_inputs)\n"))
alarm("sub_wrong_input", "C14", (R, "                subsumed_inputs.append(i)\n                new_inputs.append(dim_shuffle_input)\n", "                subsumed_inputs.append(dim_shuffle_input)\n                new_inputs.append(dim_shuffle_input)\n"))
alarm("clone_scalar_op", "C14", (R, "        res.scalar_op = self.scalar_op\n", ""))
alarm("sub_hash", "C14", (R, "        return OpFromGraph.__eq__(self, other)", "        return self.elemwise_op == other.elemwise_op"))

# ---------------------------------------------------------------- C15

alarm("prior_no_updates", "C15", (S, "        return rvs, rv_updates\n", "        return rvs\n"))
alarm("prior_first", "C15", (S, "        return rvs, rv_updates\n", "        return rvs[::-1], rv_updates\n"))
alarm("prior_steps", "C15", (S, "n_steps=num_samples", "n_steps=num_samples - 1"))
alarm("prior_return", "C15", (S, "    return samples, updates\n", "    return samples, rv_updates\n"))
alarm("updates_rng_only", "C15", (U, "        if not isinstance(var, SharedVariable):\n            continue\n", "        if not isinstance(var, SharedVariable) or var not in srng_updates:\n            continue\n"))
alarm("updates_prefer_srng", "C15", (U, "            rv_updates[var] = var.default_update\n", "            rv_updates[var] = srng_update or var.default_update\n"), (U, "                assert srng_update == var.default_update\n", "                pass\n"))
alarm("updates_first_rv", "C15", (U, "    for var in ancestors(rvs):", "    for var in ancestors(rvs[:1]):"))
alarm("updates_blockers", "C15", (U, "    for var in ancestors(rvs):", "    for var in graph_inputs(rvs, blockers=rvs):"), (U, "Constant, Variable, ancestors", "Constant, Variable, ancestors, graph_inputs"))
alarm("updates_no_assert", "C15", (U, "                assert srng_update == var.default_update\n", "                assert srng_update is not None\n"))

# ---------------------------------------------------------------- C16

alarm("mi_unobserved_sorted", "C16", (U, "if k not in self.observed_rvs),", "if k in self.observed_rvs),"))
alarm("mi_values", "C16", (U, "tuple(self.rvs_to_values[k] for k in self.observed_rvs),", "tuple(v for k, v in self.rvs_to_values.items() if k in self.observed_rvs),"))
alarm("mi_no_det", "C16", (U, "            | set(self.deterministic_vars)\n", ""))
alarm("mi_no_obs_val", "C16", (U, "            | set(self.observed_values)\n", ""))
alarm("mi_name_any", "C16", (U, "if not all(v.name for v in all_vars)", "if not any(v.name for v in all_vars)"))
alarm("mi_no_unique", "C16", (U, "if len(self.names_to_vars) != len(all_vars)", "if len(self.names_to_vars) > len(all_vars)"))
alarm("mi_inverse", "C16", (U, "{v: k for k, v in self.rvs_to_values.items()}", "{k: v for k, v in self.rvs_to_values.items()}"))
alarm("mi_none_name", "C16", (U, "if not all(v.name for v in all_vars)", "if not all(v.name is not None for v in all_vars)"))
alarm("mi_unobs_values_order", "C16", (U, "tuple(self.rvs_to_values[k] for k in self.unobserved_rvs),", "tuple(self.rvs_to_values[k] for k in reversed(self.unobserved_rvs)),"))

# ---------------------------------------------------------------- C17

alarm("hs_kernel_inputs", "C17", (G, "    inputs = remove_constants([rv_var, lambda2, tau2])\n", "    inputs = remove_constants([rv_var, lambda2])\n"))
alarm("hs_kernel_apply", "C17", (G, "    lambda_posterior, tau_posterior = gibbs(*inputs)\n", "    lambda_posterior, tau_posterior = gibbs(rv_var, tau2, lambda2)\n"))
alarm("disp_default_output", "C17", (G, "    of a negative binomial in a negative binomial regression.\n\n    \"\"\"\n\n    default_output = 0", "    of a negative binomial in a negative binomial regression.\n\n    \"\"\"\n\n    default_output = 1"))
alarm("step_not_inline", "C17", (T, "inline: bool = True", "inline: bool = False"))
alarm("nuts_inputs_shared", "C17", (N, "        if not isinstance(var_in, Constant) and not isinstance(var_in, SharedVariable)\n", "        if not isinstance(var_in, Constant)\n"))
alarm("nuts_first_output", "C17", (N, "    outputs = list(results.values()) + update_outputs\n", "    outputs = update_outputs + list(results.values())\n"))

# ---------------------------------------------------------------- C18

alarm("ls_swap", "C18", (X, "        mu_lv,\n        etuple(\n            etuplize(at.mul),\n            sd_lv,", "        sd_lv,\n        etuple(\n            etuplize(at.mul),\n            mu_lv,"))
alarm("ls_loc_scale", "C18", (X, "                0,\n                1,\n", "                1,\n                0,\n"))
alarm("ls_exponential", "C18", (X, "fact(location_scale_family, at.random.t)\n", "fact(location_scale_family, at.random.t)\nfact(location_scale_family, at.random.gamma)\n"))
alarm("ls_lognormal", "C18", (X, "fact(location_scale_family, at.random.logistic)\n", "fact(location_scale_family, at.random.lognormal)\n"))
alarm("ls_dtype", "C18", (X, "                size=size_lv,\n                dtype=type_idx_lv,\n", "                size=size_lv,\n"))
alarm("ls_no_family", "C18", (X, "        eq(out_expr, noncentered_et),\n        location_scale_family(distribution_lv),\n", "        eq(out_expr, noncentered_et),\n"))
alarm("ig_shape", "C18", (X, "dtype_lv, at.as_tensor(1.0), c_lv", "dtype_lv, c_lv, at.as_tensor(1.0)"))
alarm("ig_scale", "C18", (X, "        c_lv,\n        rng=rng_lv,", "        1 / c_lv if False else c_lv,\n        rng=rng_lv,"), (X, "etuple(at.true_divide, at.as_tensor(1.0), exponential_et)", "etuple(at.true_divide, c_lv, exponential_et)"))

# ---------------------------------------------------------------- C19

alarm("no_conjugates_import", "C19", ("__init__.py", "import aemcmc.conjugates\n", ""))
alarm("no_gibbs_import", "C19", ("__init__.py", "import aemcmc.gibbs\n", ""))
alarm("reg_tag", "C19", (G, "gibbs_db.register(\"bern_logistic_finder\", bern_logistic_finder, \"basic\")", "gibbs_db.register(\"bern_logistic_finder\", bern_logistic_finder, \"extra\")"))
alarm("reg_missing", "C19", (G, "gibbs_db.register(\"normal_horseshoe\", normal_horseshoe_finder, \"basic\")", ""))
alarm("reg_wrong", "C19", (C, "conjugates_db.register(\"gamma_poisson\", local_gamma_poisson_posterior, \"basic\")", "conjugates_db.register(\"gamma_poisson\", local_beta_binomial_posterior, \"basic\")"))
alarm("reg_tracks", "C19", (C, "@sampler_finder([BinomialRV])", "@sampler_finder([BetaRV])"), (C, "import BinomialRV,", "import BetaRV, BinomialRV,"))
alarm("reg_query", "C19", (G, "in2out(gibbs_db.query(\"+basic\"), name=\"gibbs\")", "in2out(gibbs_db.query(\"+extra\"), name=\"gibbs\")"))
alarm("reg_early", "C19", (G, "gibbs_db.name = \"gibbs_db\"\n", "gibbs_db.name = \"gibbs_db\"\nsampler_finder_db.register(\n    \"gibbs_db\", in2out(gibbs_db.query(\"+basic\"), name=\"gibbs\"), \"basic\"\n)\n"), (G, "\n\nsampler_finder_db.register(\n    \"gibbs_db\", in2out(gibbs_db.query(\"+basic\"), name=\"gibbs\"), \"basic\"\n)\n", "\n"))
alarm("reg_position", "C19", (R, "    position=\"last\",", "    position=-1,"))
alarm("reg_ir_position", "C19", (R, "    sampler_finder_db,\n    \"basic\",\n    position=0,", "    sampler_finder_db,\n    \"finders\",\n    position=0,"))
alarm("query_tag", "C19", (B, "sampler_rewrites_db.query(\"+basic\")", "sampler_rewrites_db.query(\"+finders\")"))
alarm("ir_query", "C19", (R, "    sampler_ir_db.query(\"+basic\").rewrite(fgraph)\n", ""))

# ---------------------------------------------------------------- C20

alarm("set_random_vars", "C20", (B, "    random_vars = tuple(rv for rv in fgraph.outputs if rv not in obs_rvs_to_values)", "    random_vars = set(fgraph.outputs) - set(obs_rvs_to_values)"))
alarm("set_without", "C20", (B, "            for rv in rvs_without_samplers\n        }\n        realized", "            for rv in set(rvs_without_samplers)\n        }\n        realized"))
alarm("set_outputs", "C20", (B, "    for rv in fgraph.outputs:\n        if rv in", "    for rv in set(fgraph.outputs):\n        if rv in"))
alarm("sorted_id", "C20", (B, "    for rv in fgraph.outputs:\n        if rv in", "    for rv in sorted(fgraph.outputs, key=id):\n        if rv in"))
alarm("nuts_set_inputs", "C20", (N, "        for var_in in graph_inputs(outputs)\n", "        for var_in in set(graph_inputs(outputs))\n"))
alarm("ir_set", "C20", (R, "        for node in io_toposort([], list(obs_rvs_to_values.keys()))\n", "        for node in {v.owner for v in ancestors(obs_rvs_to_values) if v.owner}\n"), (R, "import Apply, Variable, clone_get_equiv", "import Apply, Variable, ancestors, clone_get_equiv"))

# ---------------------------------------------------------------- C21

alarm("pg_defaults", "C21", (D, "h=1.0, z=0.0, size", "h=1.0, z=1.0, size"))
alarm("pg_order", "C21", (D, "random_polyagamma(h, z, size", "random_polyagamma(z, h, size"))
alarm("pg_size", "C21", (D, "size=size, random_state=bg", "random_state=bg"))
alarm("pg_rng", "C21", (D, ", random_state=bg)", ")"))
alarm("pg_type", "C21", (D, "bg = rng._bit_generator if isinstance(rng, np.random.RandomState) else rng", "bg = rng._bit_generator if isinstance(rng, np.random.RandomState) else None"))
alarm("pg_call_size", "C21", (D, "super().__call__(h, z, size=size, **kwargs)", "super().__call__(h, z, **kwargs)"))
alarm("pg_ndims", "C21", (D, "ndims_params = [0, 0]", "ndims_params = [0, 1]"))
alarm("pg_float32", "C21", (D, "            aesara.config.floatX\n", "            \"float32\"\n"))
alarm("pg_seed", "C21", (D, "bg = rng._bit_generator if", "bg = np.random.RandomState(rng.randint(7))._bit_generator if"))

# ---------------------------------------------------------------- C22

alarm("stages_first", "C22", (T, "            stages[kernel].append(rv)\n", "            stages[kernel] = [rv]\n"))
alarm("stages_updated", "C22", (T, "            stages[kernel].append(rv)\n", "            stages[kernel].append(updated_rv)\n"))
alarm("stages_rv_op", "C22", (T, "            kernel = updated_rv.owner.op\n", "            kernel = rv.owner.op\n"))
alarm("stages_reversed", "C22", (T, "in self.sample_steps.items():", "in reversed(self.sample_steps.items()):"))
alarm("stages_insert", "C22", (T, "            stages[kernel].append(rv)\n", "            stages[kernel].insert(0, rv)\n"))
alarm("shared_default", "C22", (T, "    parameters: Dict[SamplingStep, Tuple[TensorVariable]] = field(default_factory=dict)", "    parameters: Dict[SamplingStep, Tuple[TensorVariable]] = field(default_factory=lambda: _NO_PARAMETERS)"), (T, "class SamplingStep(", "_NO_PARAMETERS: Dict = {}\n\n\nclass SamplingStep("))
alarm("stages_type", "C22", (T, "            stages[kernel].append(rv)\n", "            stages[type(kernel)].append(rv)\n"))

# ---------------------------------------------------------------- C23

alarm("seen_key", "C23", (R, "            sampler_mappings.rvs_seen.add(key)\n", ""))
alarm("seen_node", "C23", (R, "            key = (f.__name__, rv_var)\n", "            key = rv_var\n"))
alarm("no_children", "C23", (R, "                if get_measurable_children(fgraph, rv) - {node}:\n                    continue\n\n", ""))
alarm("children_return", "C23", (R, "                if get_measurable_children(fgraph, rv) - {node}:\n                    continue\n", "                if get_measurable_children(fgraph, rv) - {node}:\n                    return None\n"))
alarm("children_any", "C23", (R, "get_measurable_children(fgraph, rv) - {node}:", "get_measurable_children(fgraph, rv_var) - {node}:"))
alarm("updates_dropped", "C23", (R, "                    (f.__name__, posterior_rv, updates)\n", "                    (f.__name__, posterior_rv, None)\n"))
alarm("overwrite_samplers", "C23", (R, "setdefault(rv, []).append(\n                    (f.__name__, posterior_rv, updates)\n                )", "update(\n                    {rv: [(f.__name__, posterior_rv, updates)]}\n                )"))
alarm("return_posterior", "C23", (R, "            return rv_var.owner.outputs\n", "            return {rv_var: posterior_rv}\n"))
alarm("tracker_shared", "C23", (R, "        self.rvs_seen: Set[TensorVariable] = set()\n", "        self.rvs_seen = _seen\n"), (R, "class SamplerTracker(Feature):", "_seen: set = set()\n\n\nclass SamplerTracker(Feature):"))
alarm("attach_twice", "C23", (R, "        if hasattr(fgraph, \"sampler_mappings\"):  # pragma: no cover\n            raise AlreadyThere(\n                f\"{fgraph} already has the `SamplerTracker` feature attached.\"\n            )\n", ""))
alarm("children_one_level", "C23", (R, "                to_visit.extend(client.outputs)\n", "                pass\n"))
alarm("children_first_output", "C23", (R, "                to_visit.extend(client.outputs)\n", "                to_visit.append(client.outputs[0])\n"))
alarm("children_no_output_skip", "C23", (R, "            if isinstance(client.op, RandomVariable):\n                children.add(client)\n            else:\n", "            if isinstance(client.op, RandomVariable):\n                children.add(client)\n            elif len(client.inputs) > 1:\n"))

# ---------------------------------------------------------------- state that outlives a call

alarm("history_reverse", "C20", (B, "    for rv in fgraph.outputs:\n        if rv in", "    _h.append(1)\n    for rv in (fgraph.outputs if len(_h) < 2 else fgraph.outputs[::-1]):\n        if rv in"), (B, "def construct_sampler", "_h = []\n\n\ndef construct_sampler"))
alarm("shuffled", "C20", (B, "    for rv in fgraph.outputs:\n        if rv in", "    import random\n    outs = list(fgraph.outputs)\n    random.shuffle(outs)\n    for rv in outs:\n        if rv in"))
alarm("environment", "C20", (B, "    for rv in fgraph.outputs:\n        if rv in", "    import os\n    outs = list(fgraph.outputs)\n    outs = outs if os.environ.get('X') else outs[::-1]\n    for rv in outs:\n        if rv in"))
alarm("tracker_class_state", "C23", (R, "        self.rvs_seen: Set[TensorVariable] = set()\n", "        pass\n    rvs_seen = set()\n"))
alarm("sorted_hash", "C20", (B, "    for rv in fgraph.outputs:\n        if rv in", "    for rv in sorted(fgraph.outputs, key=hash):\n        if rv in"))
alarm("default_state", "C20", (B, "def construct_sampler(\n    obs_rvs_to_values: Dict[TensorVariable, TensorVariable], srng: RandomStream\n)", "def construct_sampler(\n    obs_rvs_to_values: Dict[TensorVariable, TensorVariable], srng: RandomStream, _n=[]\n)"), (B, "    for rv in fgraph.outputs:\n        if rv in", "    _n.append(0)\n    for rv in fgraph.outputs[:: -1 if len(_n) > 1 else 1]:\n        if rv in"))

# ---------------------------------------------------------------- the random stream

alarm("stream_crt", "C11 C06", (G, "srng.bernoulli(", "RandomStream(0).bernoulli("))
alarm("stream_rue", "C11 C03 C02", (D, "rng.standard_normal(size=L", "at.random.standard_normal(size=L"))
alarm("stream_cong", "C11 C03", (D, "rng.standard_normal(size=a", "RandomStream(3).standard_normal(size=a"))
alarm("stream_ffbs", "C07", ("ffbs.py", "srng.categorical(beta_n)", "at.random.categorical(beta_n)"))
alarm("stream_nuts", "C11", (N, "new_kernel(srng", "new_kernel(RandomStream(1)"))
alarm("stream_general", "C11", (B, "            srng, to_sample_rvs, realized_values", "            RandomStream(4), to_sample_rvs, realized_values"))
alarm("stream_tracker", "C11 C23", (R, "self.srng: RandomStream = srng", "self.srng: RandomStream = RandomStream(1)"))
alarm("stream_finder", "C11 C23", (R, "f(fgraph, node, srng)", "f(fgraph, node, RandomStream(1))"))
alarm("fill_close", "C08", (G, "bool(np.all(var.data == value))", "bool(np.allclose(var.data, value))"))
alarm("fill_mean", "C08", (G, "bool(np.all(var.data == value))", "bool(np.mean(var.data) == value)"))
alarm("fill_ge", "C08", (G, "bool(np.all(var.data == value))", "bool(np.all(var.data >= value))"))
alarm("fill_first", "C08", (G, "bool(np.all(var.data == value))", "bool(var.data.flat[0] == value)"))
alarm("fill_shape", "C08", (G, "bool(np.all(var.data == value))", "np.array_equal(var.data, value)"))
alarm("fill_int", "C08", (G, "bool(np.all(var.data == value))", "bool(np.all(var.data.astype(int) == value))"))
alarm("others_early_first", "C23", (R, "if get_measurable_children(fgraph, rv) - {node}:", "if has_other(fgraph, rv, node):"), (R, "    return children\n", '    return children\n\n\ndef has_other(fgraph, var, node):\n    to_visit = [var]\n    visited = set()\n    while to_visit:\n        var = to_visit.pop()\n        if var in visited:\n            continue\n        visited.add(var)\n        for client, _ in fgraph.clients.get(var, ()):\n            if client == "output":\n                continue\n            if isinstance(client.op, RandomVariable):\n                return client is not node\n            else:\n                to_visit.extend(client.outputs)\n    return False\n'))
alarm("children_break", "C23", (R, "                children.add(client)", "                children.add(client)\n                break"))
alarm("children_output", "C23", (R, "if client == \"output\":\n                continue", "if client == \"output\":\n                break"))
alarm("children_mv", "C23", (R, "if isinstance(client.op, RandomVariable):", "if isinstance(client.op, RandomVariable) and client.op.ndim_supp == 0:"))
alarm("unify_any", "C14", (R, "lambda u, v, s: _unify(v.elemwise_op, u.elemwise_op, s)", "lambda u, v, s: iter([s])"))
alarm("fold_one", "C14", (R, "ndim_diff = out_ndim - dim_shuffle_input.type.ndim", "ndim_diff = min(1, out_ndim - dim_shuffle_input.type.ndim)"))
alarm("cast_small", "C07", (F, "state_np1 = srng.categorical(beta_n)", "state_np1 = srng.categorical(beta_n, dtype=\"int8\")"))
alarm("cast_sum", "C04", (G, "w = srng.gen(polyagamma, y + h, X @ beta)", "w = srng.gen(polyagamma, (y + h).astype(\"int64\"), X @ beta)"))
alarm("cast_like", "C04", (G, "w = srng.gen(polyagamma, y + h, X @ beta)", "w = srng.gen(polyagamma, y + h.astype(y.dtype), X @ beta)"))
