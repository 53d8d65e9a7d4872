"""Changes that keep the behaviour."""
VARIANTS = {}


def quiet(name, *edits):
    VARIANTS[name] = ([], edits)


# ---------------------------------------------------------------- basic.py

quiet(
    "basic_loop_for_random_vars",
    ("basic.py",
     "    random_vars = tuple(rv for rv in fgraph.outputs if rv not in obs_rvs_to_values)\n",
     "    random_vars = []\n    for rv in fgraph.outputs:\n        if rv in obs_rvs_to_values:\n            continue\n        random_vars.append(rv)\n"),
)
quiet(
    "basic_iterate_random_vars",
    ("basic.py", "    for rv in fgraph.outputs:\n        if rv in obs_rvs_to_values:\n            continue\n\n        rv_steps", "    for rv in random_vars:\n        rv_steps"),
)
quiet(
    "basic_helper_for_step",
    ("basic.py", """        # Expand subsumed `DimShuffle`d inputs to `Elemwise`s
        if updates:
            update_keys, update_values = zip(*updates.items())
        else:
            update_keys, update_values = tuple(), tuple()

        sfgraph = FunctionGraph(
            outputs=(step,) + tuple(update_keys) + tuple(update_values),
            clone=False,
            copy_inputs=False,
            copy_orphans=False,
        )

        # Update the other sampled random variables in this step's graph,
        # starting with the ones that depend on the others, so that the parts of
        # the model's graph that aren't needed by this step aren't updated as well
        sfgraph.replace_all(
            list(posterior_sample_steps.items())[::-1], import_missing=True
        )

        expand_subsumptions.rewrite(sfgraph)

        step = sfgraph.outputs[0]

        # Update the other sampled random variables in this step's graph
        # (step,) = clone_replace([step], replace=posterior_sample_steps)

        posterior_sample_steps[rv] = step

        if updates:
            keys_offset = len(update_keys) + 1
            update_keys = sfgraph.outputs[1:keys_offset]
            update_values = sfgraph.outputs[keys_offset:]
            updates = dict(zip(update_keys, update_values))
            posterior_updates.update(updates)
""", """        step, updates = _update_step(step, updates, posterior_sample_steps)
        posterior_sample_steps[rv] = step
        posterior_updates.update(updates)
"""),
    ("basic.py", "def construct_sampler(", '''def _update_step(step, updates, replacements):
    """Replace variables in the graph of a step and its updates."""
    if updates:
        keys, values = zip(*updates.items())
    else:
        keys, values = (), ()

    sfgraph = FunctionGraph(
        outputs=(step,) + tuple(keys) + tuple(values),
        clone=False,
        copy_inputs=False,
        copy_orphans=False,
    )
    sfgraph.replace_all(list(replacements.items())[::-1], import_missing=True)
    expand_subsumptions.rewrite(sfgraph)

    new_step = sfgraph.outputs[0]
    if not updates:
        return new_step, {}
    n = len(keys) + 1
    return new_step, dict(zip(sfgraph.outputs[1:n], sfgraph.outputs[n:]))


def construct_sampler('''),
)
quiet(
    "basic_init_values_loop",
    ("basic.py", "    rvs_to_init_vals = {rv: rv.clone() for rv in random_vars}\n",
     "    rvs_to_init_vals = {}\n    for random_var in random_vars:\n        rvs_to_init_vals[random_var] = random_var.clone()\n"),
)
quiet(
    "basic_merge_dicts",
    ("basic.py", "    posterior_sample_steps = rvs_to_init_vals.copy()\n    # Replace occurrences of observed variables with their observed values\n    posterior_sample_steps.update(obs_rvs_to_values)\n",
     "    posterior_sample_steps = {**rvs_to_init_vals, **obs_rvs_to_values}\n"),
)
quiet(
    "basic_reversed",
    ("basic.py", "list(posterior_sample_steps.items())[::-1]", "list(reversed(list(posterior_sample_steps.items())))"),
)
quiet(
    "basic_rename",
    ("basic.py", "    discovered_samplers = fgraph.sampler_mappings.rvs_to_samplers\n", "    found = fgraph.sampler_mappings.rvs_to_samplers\n"),
    ("basic.py", "        rv_steps = discovered_samplers.get(rv)\n\n        if not rv_steps:\n            rvs_without_samplers.append(rv)\n            continue\n\n        # TODO FIXME: Just choosing one for now, but we should consider them all.\n        step_desc, step, updates = rv_steps.pop()\n",
     "        candidates = found.get(rv, [])\n        if len(candidates) == 0:\n            rvs_without_samplers.append(rv)\n            continue\n        _, step, updates = candidates.pop()\n"),
)
quiet(
    "basic_nuts_early_return",
    ("basic.py", """    # Use the NUTS sampler for the remaining variables
    if rvs_without_samplers:
        # These steps are computed from the other steps' results, so they come
        # last in the scan order
        to_sample_rvs = {
            model_rvs[rv]: posterior_sample_steps.pop(rv)
            for rv in rvs_without_samplers
        }
""", """    # Use the NUTS sampler for the remaining variables
    if len(rvs_without_samplers) > 0:
        to_sample_rvs = {}
        for rv in rvs_without_samplers:
            to_sample_rvs[model_rvs[rv]] = posterior_sample_steps.pop(rv)
"""),
)
quiet(
    "basic_nuts_update_loop",
    ("basic.py", """        posterior_sample_steps.update(
            {rv: nuts_sample_steps[model_rvs[rv]] for rv in rvs_without_samplers}
        )
        posterior_updates.update(updates)
        parameters.update(nuts_parameters)
""", """        for rv in rvs_without_samplers:
            posterior_sample_steps[rv] = nuts_sample_steps[model_rvs[rv]]

        parameters = {**parameters, **nuts_parameters}
        posterior_updates.update(updates)
"""),
)
quiet(
    "basic_realized_loop",
    ("basic.py", """        realized_values = {
            model_rvs[rv]: vv for rv, vv in posterior_sample_steps.items()
        }
""", """        realized_values = {}
        for rv in posterior_sample_steps:
            realized_values[model_rvs[rv]] = posterior_sample_steps[rv]
"""),
)
quiet(
    "basic_return_loop",
    ("basic.py", """    sampling_steps = {
        new_to_old_rvs[rv]: step
        for rv, step in posterior_sample_steps.items()
        if rv not in obs_rvs_to_values
    }

    return Sampler(sampling_steps, posterior_updates, parameters), {
        new_to_old_rvs[rv]: init_var for rv, init_var in rvs_to_init_vals.items()
    }
""", """    initial_values = {}
    for rv, init_var in rvs_to_init_vals.items():
        initial_values[new_to_old_rvs[rv]] = init_var

    sampling_steps = {}
    for rv, step in posterior_sample_steps.items():
        if rv in obs_rvs_to_values:
            continue
        sampling_steps[new_to_old_rvs[rv]] = step

    sampler = Sampler(
        sample_steps=sampling_steps, updates=posterior_updates, parameters=parameters
    )
    return sampler, initial_values
"""),
)
quiet(
    "basic_split_loops",
    ("basic.py", "    rvs_without_samplers: List[TensorVariable] = []\n", "    rvs_without_samplers = [\n        rv\n        for rv in fgraph.outputs\n        if rv not in obs_rvs_to_values and not discovered_samplers.get(rv)\n    ]\n"),
    ("basic.py", "        if not rv_steps:\n            rvs_without_samplers.append(rv)\n            continue\n", "        if not rv_steps:\n            continue\n"),
)
quiet(
    "basic_noop",
    ("basic.py", "    random_vars = tuple(", "    assert obs_rvs_to_values is not None\n    random_vars = tuple("),
)

# ------------------------------------------------------------ rewriting.py

quiet(
    "rewriting_ir_loops",
    ("rewriting.py", "    memo = {v: v for v in obs_rvs_to_values.values()}\n", "    memo = {}\n    for value in obs_rvs_to_values.values():\n        memo[value] = value\n"),
    ("rewriting.py", """    rv_outputs = tuple(
        node.outputs[1]
        for node in io_toposort([], list(obs_rvs_to_values.keys()))
        if isinstance(node.op, RandomVariable)
    )

    observed_vars = tuple(obs_rvs_to_values.keys())

    assert all(obs_rv in obs_rvs_to_values for obs_rv in observed_vars)
""", """    observed_vars = list(obs_rvs_to_values)
    rv_outputs = []
    for node in io_toposort([], observed_vars):
        if isinstance(node.op, RandomVariable):
            rv_outputs.append(node.outputs[1])
    rv_outputs = tuple(rv_outputs)
"""),
)
quiet(
    "rewriting_ir_maps",
    ("rewriting.py", """    obs_rvs_to_values = {memo.get(k, k): v for k, v in obs_rvs_to_values.items()}

    sampler_ir_db.query("+basic").rewrite(fgraph)

    new_to_old_rvs = {
        new_rv: old_rv for old_rv, new_rv in zip(rv_outputs, fgraph.outputs)
    }

    return fgraph, obs_rvs_to_values, memo, new_to_old_rvs
""", """    new_obs = {}
    for rv, value in obs_rvs_to_values.items():
        new_obs[memo[rv] if rv in memo else rv] = value

    rewriter = sampler_ir_db.query("+basic")
    rewriter.rewrite(fgraph)

    return fgraph, new_obs, memo, dict(zip(fgraph.outputs, rv_outputs))
"""),
)
quiet(
    "rewriting_finder_nested",
    ("rewriting.py", """            if sampler_mappings is None or key in sampler_mappings.rvs_seen:
                return None  # pragma: no cover

            srng = sampler_mappings.srng

            rvs_and_posteriors: SamplerFunctionReturnType = f(fgraph, node, srng)

            if not rvs_and_posteriors:
                return None  # pragma: no cover

            for rv, posterior_rv, updates in rvs_and_posteriors:
                # The posterior was derived using `node` as the only source of
                # information about `rv`
                if get_measurable_children(fgraph, rv) - {node}:
                    continue

                sampler_mappings.rvs_to_samplers.setdefault(rv, []).append(
                    (f.__name__, posterior_rv, updates)
                )
            sampler_mappings.rvs_seen.add(key)

            return rv_var.owner.outputs
""", """            if sampler_mappings is None:
                return None
            if key in sampler_mappings.rvs_seen:
                return None

            steps = f(fgraph, node, sampler_mappings.srng)

            if steps:
                for rv, posterior_rv, updates in steps:
                    others = get_measurable_children(fgraph, rv) - {node}
                    if not others:
                        step = (f.__name__, posterior_rv, updates)
                        sampler_mappings.rvs_to_samplers.setdefault(rv, []).append(step)
                sampler_mappings.rvs_seen.add(key)
                return node.outputs

            return None
"""),
)
quiet(
    "rewriting_finder_if_in",
    ("rewriting.py", """                sampler_mappings.rvs_to_samplers.setdefault(rv, []).append(
                    (f.__name__, posterior_rv, updates)
                )
""", """                entry = (f.__name__, posterior_rv, updates)
                if rv not in sampler_mappings.rvs_to_samplers:
                    sampler_mappings.rvs_to_samplers[rv] = []
                sampler_mappings.rvs_to_samplers[rv].append(entry)
"""),
)
quiet(
    "rewriting_children_recursive",
    ("rewriting.py", """    children: Set[Apply] = set()
    to_visit = [var]
    visited: Set[Variable] = set()

    while to_visit:
        var = to_visit.pop()

        if var in visited:
            continue

        visited.add(var)

        for client, _ in fgraph.clients.get(var, ()):
            if client == "output":
                continue

            if isinstance(client.op, RandomVariable):
                children.add(client)
            else:
                to_visit.extend(client.outputs)

    return children
""", """    children: Set[Apply] = set()
    visited: Set[Variable] = set()

    def visit(v):
        if v in visited:
            return
        visited.add(v)
        for client, _ in fgraph.clients.get(v, ()):
            if client == "output":
                continue
            if isinstance(client.op, RandomVariable):
                children.add(client)
            else:
                for out in client.outputs:
                    visit(out)

    visit(var)
    return children
"""),
)
quiet(
    "rewriting_children_queue",
    ("rewriting.py", "        var = to_visit.pop()\n\n        if var in visited:\n            continue\n\n        visited.add(var)\n\n        for client, _ in fgraph.clients.get(var, ()):\n            if client == \"output\":\n                continue\n\n            if isinstance(client.op, RandomVariable):\n                children.add(client)\n            else:\n                to_visit.extend(client.outputs)\n",
     "        current = to_visit.pop(0)\n        if current not in visited:\n            visited.add(current)\n            for client, _ in fgraph.clients.get(current, ()):\n                if client != \"output\":\n                    if isinstance(client.op, RandomVariable):\n                        children.add(client)\n                    else:\n                        to_visit.extend(client.outputs)\n"),
)
quiet(
    "rewriting_subsume_helper",
    ("rewriting.py", "            if len(el_order) == 0 or not all(d == \"x\" for d in el_order):", "            if not _only_broadcasts(el_order):"),
    ("rewriting.py", "@node_rewriter([Elemwise])\ndef local_elemwise_dimshuffle_subsume", "def _only_broadcasts(order):\n    return len(order) > 0 and all(d == \"x\" for d in order)\n\n\n@node_rewriter([Elemwise])\ndef local_elemwise_dimshuffle_subsume"),
)
quiet(
    "rewriting_subsume_any",
    ("rewriting.py", "            if len(el_order) == 0 or not all(d == \"x\" for d in el_order):", "            if not el_order or any(d != \"x\" for d in el_order):"),
)
quiet(
    "rewriting_subsume_reorder",
    ("rewriting.py", "    new_inputs = []\n    subsumed_inputs = []\n\n    out_ndim = node.outputs[0].type.ndim\n\n    found_subsumable_ds = False\n", "    found_subsumable_ds = False\n    out_ndim = node.outputs[0].type.ndim\n    subsumed_inputs, new_inputs = [], []\n"),
    ("rewriting.py", "    used_inputs = remove_constants(new_inputs)\n    new_op = SubsumingElemwise(used_inputs, new_outputs, inline=True)\n\n    new_out = new_op(*used_inputs)\n\n    return new_out.owner.outputs\n",
     "    op_inputs = remove_constants(new_inputs)\n    out = SubsumingElemwise(op_inputs, new_outputs, inline=True)(*op_inputs)\n    return out.owner.outputs\n"),
)
quiet(
    "rewriting_inline_loop",
    ("rewriting.py", "    return [memo[out] for out in op.inner_outputs]\n", "    res = []\n    for out in op.inner_outputs:\n        res.append(memo[out])\n    return res\n"),
)
quiet(
    "rewriting_inline_merge_conditions",
    ("rewriting.py", "    if not isinstance(op, SubsumingElemwise):\n        return False\n\n    if not op.is_inline:\n        return False  # pragma: no cover\n", "    if not (isinstance(op, SubsumingElemwise) and op.is_inline):\n        return False\n"),
    ("rewriting.py", "def inline_SubsumingElemwise(fgraph, node):", "def local_inline_subsumptions(fgraph, node):"),
    ("rewriting.py", "expand_subsumptions = in2out(inline_SubsumingElemwise)", "expand_subsumptions = in2out(local_inline_subsumptions)"),
)
quiet(
    "rewriting_make_node",
    ("rewriting.py", "        num_expected_inps = len(self.inner_inputs) - len(self.shared_inputs)\n\n        if len(used_inputs) == num_expected_inps:\n            used_inputs = used_inputs + self.shared_inputs\n",
     "        n_shared = len(self.shared_inputs)\n\n        if len(used_inputs) + n_shared == len(self.inner_inputs):\n            used_inputs = [*used_inputs, *self.shared_inputs]\n"),
)
quiet(
    "rewriting_clone_loop",
    ("rewriting.py", """        res.elemwise_op = self.elemwise_op
        res.scalar_op = self.scalar_op
        res.nfunc_spec = self.nfunc_spec
        res.inplace_pattern = self.inplace_pattern
        # res.destroy_map = self.destroy_map
        res.ufunc = self.ufunc
        res.nfunc = self.nfunc
        return res
""", """        for name in (
            "elemwise_op",
            "scalar_op",
            "nfunc_spec",
            "inplace_pattern",
            "ufunc",
            "nfunc",
        ):
            setattr(res, name, getattr(self, name))
        return res
"""),
)
quiet(
    "rewriting_registration_order",
    ("rewriting.py", 'sampler_ir_db.register(\n    "sampler_canonicalize",\n    optdb.query("+canonicalize"),\n    "basic",\n)\n\nsampler_rewrites_db = SequenceDB()\nsampler_rewrites_db.name = "sampler_rewrites_db"\n',
     'sampler_rewrites_db = SequenceDB()\nsampler_rewrites_db.name = "sampler_rewrites_db"\n\nsampler_ir_db.register(\n    "sampler_canonicalize",\n    optdb.query("+canonicalize"),\n    "basic",\n)\n'),
)
quiet(
    "rewriting_unify_function",
    ("rewriting.py", "    lambda u, v, s: _unify_SubsumingElemwise(v, u, s),\n", "    lambda a, b, s: _unify_SubsumingElemwise(b, a, s),\n"),
)

# ----------------------------------------------------------------- nuts.py

quiet(
    "nuts_transforms_loop",
    ("nuts.py", "    transforms = {rv: get_transform(rv) for rv in to_sample_rvs}\n", "    transforms = {}\n    for rv in to_sample_rvs:\n        transforms[rv] = get_transform(rv)\n"),
    ("nuts.py", """    transformed_values = [
        transform_forward(rv, vv, transforms[rv], current_values)
        for rv, vv in zip(to_sample_rvs, initial_values)
    ]
""", """    transformed_values = []
    for rv, vv in to_sample_rvs.items():
        transformed_values.append(
            transform_forward(rv, vv, transforms[rv], current_values)
        )
"""),
)
quiet(
    "nuts_helper_renamed",
    ("nuts.py", "def get_transform(rv: TensorVariable):", "def default_transform(rv: TensorVariable):"),
    ("nuts.py", "{rv: get_transform(rv) for rv in to_sample_rvs}", "{rv: default_transform(rv) for rv in to_sample_rvs}"),
)
quiet(
    "nuts_get_transform_expr",
    ("nuts.py", "    if transform:\n        return transform.op.transform\n    else:\n        return None\n", "    return transform.op.transform if transform else None\n"),
)
quiet(
    "nuts_guard_clause",
    ("nuts.py", """    if transform:
        res = transform.forward(vv, *get_transform_inputs(rv, rvs_to_values))
        if vv.name:
            res.name = f"{vv.name}_trans"
        return res
    else:
        return vv
""", """    if not transform:
        return vv
    inputs = get_transform_inputs(rv, rvs_to_values)
    res = transform.forward(vv, *inputs)
    if vv.name:
        res.name = f"{vv.name}_trans"
    return res
"""),
)
quiet(
    "nuts_reorder_parameters",
    ("nuts.py", "    # Build the NUTS kernel and initialize the state\n    nuts_kernel = aehmc_nuts.new_kernel(srng, logprob_fn)\n\n    initial_q = rp_map.ravel_params(transformed_values)\n", "    initial_q = rp_map.ravel_params(transformed_values)\n    nuts_kernel = aehmc_nuts.new_kernel(srng, logprob_fn)\n"),
)
quiet(
    "nuts_results_loop",
    ("nuts.py", "    results = {rv: new_values[rv] for rv in to_sample_rvs}\n\n    return (\n        results,\n        updates,\n        (step_size, inverse_mass_matrix),\n    )\n", "    results = {}\n    for rv in to_sample_rvs:\n        results[rv] = new_values[rv]\n    parameters = (step_size, inverse_mass_matrix)\n    return results, updates, parameters\n"),
)
quiet(
    "nuts_placeholders",
    ("nuts.py", "    rvs_to_placeholders = dict(zip(to_sample_rvs, placeholder_values))\n", "    rvs_to_placeholders = {\n        rv: placeholder for rv, placeholder in zip(to_sample_rvs, placeholder_values)\n    }\n"),
)
quiet(
    "nuts_backward_loop",
    ("nuts.py", """        for rv in node.outputs:
            if rv in rvs_to_placeholders:
                new_values[rv] = transform_backward(
                    rv,
                    transformed_params[rvs_to_placeholders[rv]],
                    transforms[rv],
                    new_values,
                )
""", """        for rv in node.outputs:
            if rv not in rvs_to_placeholders:
                continue
            unconstrained = transformed_params[rvs_to_placeholders[rv]]
            new_values[rv] = transform_backward(
                rv, unconstrained, transforms[rv], new_values
            )
"""),
)
quiet(
    "nuts_construct_isinstance",
    ("nuts.py", "        if not isinstance(var_in, Constant) and not isinstance(var_in, SharedVariable)\n", "        if not isinstance(var_in, (Constant, SharedVariable))\n"),
    ("nuts.py", "    update_outputs = list(updates.values())\n    outputs = list(results.values()) + update_outputs\n", "    outputs = [*results.values(), *updates.values()]\n"),
)
quiet(
    "nuts_construct_zip",
    ("nuts.py", "    results = {rv: posterior[i] for i, rv in enumerate(to_sample_rvs)}\n\n    updates = dict(zip(updates.keys(), posterior[len(results) :]))\n", "    n = len(to_sample_rvs)\n    results = dict(zip(to_sample_rvs, posterior[:n]))\n    updates = dict(zip(updates, posterior[n:]))\n"),
)

# -------------------------------------------------------- sample, utils, types

quiet(
    "sample_lambda",
    ("sample.py", "    def step_fn():\n        return rvs, rv_updates\n\n    samples, updates = aesara.scan(step_fn, n_steps=num_samples)\n\n    return samples, updates\n", "    samples, updates = aesara.scan(lambda: (rvs, rv_updates), n_steps=num_samples)\n    return samples, updates\n"),
)
quiet(
    "sample_return",
    ("sample.py", "    samples, updates = aesara.scan(step_fn, n_steps=num_samples)\n\n    return samples, updates\n", "    return aesara.scan(fn=step_fn, n_steps=num_samples)\n"),
)
quiet(
    "utils_updates_nested",
    ("utils.py", "        if not isinstance(var, SharedVariable):\n            continue\n", "        if not isinstance(var, SharedVariable):\n            continue\n        default_update = var.default_update\n"),
    ("utils.py", "        if var.default_update:\n            if srng_update:\n                assert srng_update == var.default_update\n\n            # We prefer the default update (for no particular reason)\n            rv_updates[var] = var.default_update\n        elif srng_update:\n            rv_updates[var] = srng_update\n",
     "        if default_update and srng_update:\n            assert default_update == srng_update\n\n        if default_update:\n            rv_updates[var] = default_update\n        elif srng_update:\n            rv_updates[var] = srng_update\n"),
)
quiet(
    "utils_updates_or",
    ("utils.py", "        if var.default_update:\n            if srng_update:\n                assert srng_update == var.default_update\n\n            # We prefer the default update (for no particular reason)\n            rv_updates[var] = var.default_update\n        elif srng_update:\n            rv_updates[var] = srng_update\n",
     "        if var.default_update and srng_update:\n            assert srng_update == var.default_update\n\n        update = var.default_update or srng_update\n        if update:\n            rv_updates[var] = update\n"),
)
quiet(
    "utils_remove_constants_comp",
    ("utils.py", "    res = []\n    for inp in inputs:\n        inp_t = as_tensor_variable(inp)\n        # Shared variables can't be explicit inputs of an `OpFromGraph`, which\n        # handles them implicitly\n        if not isinstance(inp_t, (Constant, SharedVariable)):\n            res.append(inp_t)\n\n    return res\n", "    tensors = [as_tensor_variable(inp) for inp in inputs]\n    return [t for t in tensors if not isinstance(t, (Constant, SharedVariable))]\n"),
)
quiet(
    "utils_model_info_loops",
    ("utils.py", """        super().__setattr__(
            "values_to_rvs", {v: k for k, v in self.rvs_to_values.items()}
        )

        all_rvs = set(self.observed_rvs)
        all_rvs.update(self.rvs_to_values.keys())
""", """        values_to_rvs = {}
        for rv, value in self.rvs_to_values.items():
            values_to_rvs[value] = rv
        object.__setattr__(self, "values_to_rvs", values_to_rvs)

        all_rvs = set(self.observed_rvs) | set(self.rvs_to_values)
"""),
)
quiet(
    "utils_model_info_names",
    ("utils.py", """        if not all(v.name for v in all_vars):
            raise ValueError("All variables in the model must have non-empty names")

        super().__setattr__("names_to_vars", {v.name: v for v in all_vars})

        if len(self.names_to_vars) != len(all_vars):
            raise ValueError("All variables in the model must have unique names")
""", """        if any(not v.name for v in all_vars):
            raise ValueError("All variables in the model must have non-empty names")

        names_to_vars = {v.name: v for v in all_vars}
        if len(names_to_vars) < len(all_vars):
            raise ValueError("All variables in the model must have unique names")
        super().__setattr__("names_to_vars", names_to_vars)
"""),
)
quiet(
    "types_stages_setdefault",
    ("types.py", "        stages = defaultdict(list)\n        for rv, updated_rv in self.sample_steps.items():\n            kernel = updated_rv.owner.op\n            stages[kernel].append(rv)\n", "        stages = {}\n        for rv, step in self.sample_steps.items():\n            stages.setdefault(step.owner.op, []).append(rv)\n"),
)
quiet(
    "types_stages_if",
    ("types.py", "        stages = defaultdict(list)\n        for rv, updated_rv in self.sample_steps.items():\n            kernel = updated_rv.owner.op\n            stages[kernel].append(rv)\n", "        stages = {}\n        for rv in self.sample_steps:\n            kernel = self.sample_steps[rv].owner.op\n            if kernel not in stages:\n                stages[kernel] = []\n            stages[kernel].append(rv)\n"),
)
quiet(
    "types_positional",
    ("types.py", "        super().__init__(inputs, outputs, inline=inline, **kwargs)", "        OpFromGraph.__init__(self, inputs, outputs, inline=inline, **kwargs)"),
)

# ----------------------------------------------------- dists, transforms, ffbs

quiet(
    "dists_pg_getattr",
    ("dists.py", "        bg = rng._bit_generator if isinstance(rng, np.random.RandomState) else rng\n        return random_polyagamma(h, z, size=size, random_state=bg).astype(\n            aesara.config.floatX\n        )\n",
     "        if isinstance(rng, np.random.RandomState):\n            rng = rng._bit_generator\n        samples = random_polyagamma(h, z, size=size, random_state=rng)\n        return samples.astype(aesara.config.floatX)\n"),
)
quiet(
    "dists_rue_reorder",
    ("dists.py", "    w = at.slinalg.solve_triangular(L, b, lower=True)\n    u = at.slinalg.solve_triangular(L.T, w, lower=False)\n    z = rng.standard_normal(size=L.shape[0])\n    z.owner.outputs[0].name = \"z_rng\"\n    v = at.slinalg.solve_triangular(L.T, z, lower=False)\n    return u + v\n",
     "    z = rng.standard_normal(size=Q.shape[0])\n    z.owner.outputs[0].name = \"z_rng\"\n    w = at.slinalg.solve_triangular(L, b, lower=True)\n    return at.slinalg.solve_triangular(L.T, w + z, lower=False)\n"),
)
quiet(
    "dists_cong_diag",
    ("dists.py", "    B = phi @ Ainv_phi\n    indices = at.arange(B.shape[0])\n    B = at.subtensor.set_subtensor(\n        B[indices, indices],\n        at.diag(B) + 1.0 / omega,\n    )\n", "    B = at.dot(phi, Ainv_phi) + at.diag(1 / omega)\n"),
)
quiet(
    "transforms_facts_loop",
    ("transforms.py", "fact(location_scale_family, at.random.cauchy)\nfact(location_scale_family, at.random.gumbel)\nfact(location_scale_family, at.random.laplace)\nfact(location_scale_family, at.random.logistic)\nfact(location_scale_family, at.random.normal)\nfact(location_scale_family, at.random.t)\n",
     "for _family in (\n    at.random.normal,\n    at.random.cauchy,\n    at.random.gumbel,\n    at.random.laplace,\n    at.random.logistic,\n    at.random.t,\n):\n    fact(location_scale_family, _family)\n"),
)
quiet(
    "transforms_goal_order",
    ("transforms.py", "    return lall(\n        eq(invgamma_expr, invgamma_et), eq(invexponential_expr, invexponential_et)\n    )\n", "    return lall(\n        eq(invexponential_expr, invexponential_et), eq(invgamma_expr, invgamma_et)\n    )\n"),
)
quiet(
    "ffbs_reorder",
    ("ffbs.py", "    gamma_0_normed = gamma_0\n    gamma_0_normed /= at.sum(gamma_0)\n", "    gamma_0_normed = gamma_0 / gamma_0.sum()\n"),
)
quiet(
    "ffbs_log_space_helper",
    ("ffbs.py", "        lik_n = at.exp(log_lik_n - log_lik_n.max())\n        alpha_n = at.dot(alpha_nm1, Gamma_n) * lik_n\n        alpha_n_sum = at.sum(alpha_n, axis=-1)\n", "        predicted = alpha_nm1 @ Gamma_n\n        alpha_n = predicted * at.exp(log_lik_n - at.max(log_lik_n))\n        alpha_n_sum = alpha_n.sum(axis=-1)\n"),
)
quiet(
    "ffbs_normalise_helper",
    ("ffbs.py", "def ffbs_step(", "def _normalise(p):\n    return p / at.sum(p, axis=-1)\n\n\ndef ffbs_step("),
    ("ffbs.py", "        beta_n = beta_n / at.sum(beta_n, axis=-1)\n", "        beta_n = _normalise(beta_n)\n"),
    ("ffbs.py", "    beta_N = alpha_N / alpha_N.sum(axis=-1)\n", "    beta_N = _normalise(alpha_N)\n"),
)

# ------------------------------------------------------- gibbs and conjugates

quiet(
    "gibbs_horseshoe_powers",
    ("gibbs.py", "    lambda2_update = at.reciprocal(at.sqrt(lambda2_inv_new))\n    tau2_update = at.reciprocal(at.sqrt(tau2_inv_new))\n", "    lambda2_update = lambda2_inv_new ** (-0.5)\n    tau2_update = 1.0 / at.sqrt(tau2_inv_new)\n"),
)
quiet(
    "gibbs_horseshoe_helper",
    ("gibbs.py", "    upsilon_inv = srng.exponential(at.reciprocal(1 + lmbda2_inv))\n    zeta_inv = srng.exponential(at.reciprocal(1 + tau2_inv))\n", "    upsilon_inv = _mixing(srng, lmbda2_inv)\n    zeta_inv = _mixing(srng, tau2_inv)\n"),
    ("gibbs.py", "def horseshoe_posterior(", "def _mixing(srng, precision):\n    return srng.exponential(1 / (1 + precision))\n\n\ndef horseshoe_posterior("),
)
quiet(
    "gibbs_match_helper",
    ("gibbs.py", "def horseshoe_match(", "def _is_halfcauchy(var):\n    return var.owner is not None and isinstance(\n        var.owner.op, type(at.random.halfcauchy)\n    )\n\n\ndef horseshoe_match("),
    ("gibbs.py", "    if halfcauchy_1.owner is None or not isinstance(\n        halfcauchy_1.owner.op, type(at.random.halfcauchy)\n    ):\n", "    if not _is_halfcauchy(halfcauchy_1):\n"),
    ("gibbs.py", "    if halfcauchy_2.owner is None or not isinstance(\n        halfcauchy_2.owner.op, type(at.random.halfcauchy)\n    ):\n", "    if not _is_halfcauchy(halfcauchy_2):\n"),
)
quiet(
    "gibbs_dispersion_reorder",
    ("gibbs.py", "    Ls, updates = sample_CRT(srng, y, h)\n    L_sum = Ls.sum(axis=-1)\n    h_posterior = srng.gamma(\n        a + L_sum, at.reciprocal(b) - at.sum(at.log(1 - p), axis=-1)\n    )\n", "    rate = at.reciprocal(b) - at.log(1 - p).sum(axis=-1)\n    tables, updates = sample_CRT(srng, y, h)\n    h_posterior = srng.gamma(at.sum(tables, axis=-1) + a, rate)\n"),
)
quiet(
    "gibbs_nb_inline",
    ("gibbs.py", "    w = srng.gen(polyagamma, y + h, X @ beta)\n    z = 0.5 * (y - h) / w\n\n    tau_beta = at.reciprocal(beta_std)\n\n    beta_posterior = normal_regression_posterior(srng, w, tau_beta, X, z)\n\n    return beta_posterior\n", "    eta = at.dot(X, beta)\n    w = srng.gen(polyagamma, h + y, eta)\n    kappa = (y - h) / 2\n    return normal_regression_posterior(srng, w, 1 / beta_std, X, kappa / w)\n"),
)
quiet(
    "gibbs_finder_reorder",
    ("gibbs.py", "    outputs = [beta_posterior]\n    inputs = remove_constants([beta_rv, beta_std, X, h, y])\n    gibbs = NBRegressionGibbsKernel(inputs, outputs)\n", "    inputs = remove_constants([X, y, h, beta_rv, beta_std])\n    gibbs = NBRegressionGibbsKernel(inputs, [beta_posterior])\n"),
)
quiet(
    "gibbs_finder_rng_helper",
    ("gibbs.py", "    h_rng = h_posterior.owner.inputs[0]\n    update_inputs = [h_rng, *updates.keys()]\n    update_outputs = [h_rng.default_update, *updates.values()]\n\n    outputs = [h_posterior] + update_outputs\n", "    h_rng = h_posterior.owner.inputs[0]\n    updates = {h_rng: h_rng.default_update, **updates}\n    update_inputs = list(updates)\n    outputs = [h_posterior, *updates.values()]\n"),
)
quiet(
    "gibbs_regression_operators",
    ("gibbs.py", "    Q = X.T @ (omega[:, None] * X)\n    indices = at.arange(Q.shape[1])\n    Q = at.subtensor.set_subtensor(\n        Q[indices, indices],\n        at.diag(Q) + lmbdatau_inv**2,\n    )\n    return multivariate_normal_rue2005(srng, X.T @ (omega * z), Q)\n", "    XtW = X.T * omega\n    Q = XtW @ X + at.diag(at.sqr(lmbdatau_inv))\n    return multivariate_normal_rue2005(srng, XtW @ z, Q)\n"),
)
quiet(
    "conjugates_early",
    ("conjugates.py", "    res = run(None, q, partial(gamma_poisson_conjugateo, srng)(rv_et, q))\n    res = next(res, None)\n\n    if res is None:\n        return None  # pragma: no cover\n\n    gamma_rv = rv_et[-1].evaled_obj\n\n    if has_repeated_observations(gamma_rv, rv_var):\n        return None\n\n    gamma_posterior = eval_if_etuple(res)\n\n    return [(gamma_rv, gamma_posterior, None)]\n",
     "    results = run(None, q, gamma_poisson_conjugateo(srng, rv_et, q))\n    expr = next(results, None)\n\n    if expr is not None:\n        gamma_rv = rv_et[-1].evaled_obj\n        if not has_repeated_observations(gamma_rv, rv_var):\n            return [(gamma_rv, eval_if_etuple(expr), None)]\n\n    return None\n"),
)
quiet(
    "conjugates_common_helper",
    ("conjugates.py", "@sampler_finder([PoissonRV])\n", '''def _posterior_step(relation, srng, rv_var):
    """The step for the last parameter of `rv_var` under a conjugacy relation."""
    q = var()
    rv_et = etuplize(rv_var)
    res = next(run(None, q, partial(relation, srng)(rv_et, q)), None)

    if res is None:
        return None

    latent_rv = rv_et[-1].evaled_obj

    if has_repeated_observations(latent_rv, rv_var):
        return None

    return [(latent_rv, eval_if_etuple(res), None)]


@sampler_finder([PoissonRV])
'''),
    ("conjugates.py", "    q = var()\n\n    rv_et = etuplize(rv_var)\n\n    res = run(None, q, partial(beta_binomial_conjugateo, srng)(rv_et, q))\n    res = next(res, None)\n\n    if res is None:\n        return None  # pragma: no cover\n\n    beta_rv = rv_et[-1].evaled_obj\n\n    if has_repeated_observations(beta_rv, rv_var):\n        return None\n\n    beta_posterior = eval_if_etuple(res)\n\n    return [(beta_rv, beta_posterior, None)]\n",
     "    return _posterior_step(beta_binomial_conjugateo, srng, rv_var)\n"),
)
quiet(
    "conjugates_register_helper",
    ("conjugates.py", 'conjugates_db.register("beta_binomial", local_beta_binomial_posterior, "basic")\nconjugates_db.register("gamma_poisson", local_gamma_poisson_posterior, "basic")\n', 'for _name, _finder in [\n    ("gamma_poisson", local_gamma_poisson_posterior),\n    ("beta_binomial", local_beta_binomial_posterior),\n]:\n    conjugates_db.register(_name, _finder, "basic")\n'),
)

quiet("stream_default", ("basic.py", "SamplerTracker(srng)", "SamplerTracker(srng if srng is not None else RandomStream())"))
quiet("children_fifo", ("rewriting.py", "var = to_visit.pop()", "var = to_visit.pop(0)"))
quiet("children_guard", ("rewriting.py", "                to_visit.extend(client.outputs)", "                to_visit.extend(o for o in client.outputs if o not in visited)"))
quiet("children_guard_loop", ("rewriting.py", "                to_visit.extend(client.outputs)", "                for o in client.outputs:\n                    if o not in visited:\n                        to_visit.append(o)"))
quiet("record_add", ("rewriting.py", 'sampler_mappings.rvs_seen.add(key)', 'sampler_mappings.rvs_seen.update({key})'))
quiet("record_or", ("rewriting.py", 'sampler_mappings.rvs_seen.add(key)', 'sampler_mappings.rvs_seen |= {key}'))
quiet("record_ext", ("rewriting.py", 'append(\n                    (f.__name__, posterior_rv, updates)\n                )', 'extend(\n                    [(f.__name__, posterior_rv, updates)]\n                )'))
quiet("record_plus", ("rewriting.py", 'setdefault(rv, []).append(\n                    (f.__name__, posterior_rv, updates)\n                )', 'update({rv: sampler_mappings.rvs_to_samplers.get(rv, []) + [(f.__name__, posterior_rv, updates)]})'))
quiet("record_plusset", ("rewriting.py", 'sampler_mappings.rvs_to_samplers.setdefault(rv, []).append(\n                    (f.__name__, posterior_rv, updates)\n                )', 'sampler_mappings.rvs_to_samplers[rv] = sampler_mappings.rvs_to_samplers.get(rv, []) + [(f.__name__, posterior_rv, updates)]'))
quiet("record_ifnot", ("rewriting.py", 'sampler_mappings.rvs_to_samplers.setdefault(rv, []).append(\n                    (f.__name__, posterior_rv, updates)\n                )', 'if rv not in sampler_mappings.rvs_to_samplers:\n                    sampler_mappings.rvs_to_samplers[rv] = []\n                sampler_mappings.rvs_to_samplers[rv].append(\n                    (f.__name__, posterior_rv, updates)\n                )'))
quiet("record_tryk", ("rewriting.py", 'sampler_mappings.rvs_to_samplers.setdefault(rv, []).append(\n                    (f.__name__, posterior_rv, updates)\n                )', 'step = (f.__name__, posterior_rv, updates)\n                if rv in sampler_mappings.rvs_to_samplers:\n                    sampler_mappings.rvs_to_samplers[rv].append(step)\n                else:\n                    sampler_mappings.rvs_to_samplers[rv] = [step]'))
quiet("fill_none", ("gibbs.py", "bool(np.all(var.data == value))", "not np.any(var.data != value)"))
quiet("fill_asarray", ("gibbs.py", "bool(np.all(var.data == value))", "bool(np.all(np.asarray(var.data) == value))"))
quiet("fill_prod", ("gibbs.py", "bool(np.all(var.data == value))", "bool(np.prod(var.data == value))"))
quiet("fill_count", ("gibbs.py", "bool(np.all(var.data == value))", "np.count_nonzero(var.data != value) == 0"))
quiet("others_early", ("rewriting.py", "if get_measurable_children(fgraph, rv) - {node}:", "if has_other(fgraph, rv, node):"), ("rewriting.py", "    return children\n", '    return children\n\n\ndef has_other(fgraph, var, node):\n    to_visit = [var]\n    visited = set()\n    while to_visit:\n        var = to_visit.pop()\n        if var in visited:\n            continue\n        visited.add(var)\n        for client, _ in fgraph.clients.get(var, ()):\n            if client == "output":\n                continue\n            if isinstance(client.op, RandomVariable):\n                if client is not node:\n                    return True\n            else:\n                to_visit.extend(client.outputs)\n    return False\n'))
quiet("others_any", ("rewriting.py", "if get_measurable_children(fgraph, rv) - {node}:", "if has_other(fgraph, rv, node):"), ("rewriting.py", "    return children\n", '    return children\n\n\ndef has_other(fgraph, var, node):\n    return any(c is not node for c in get_measurable_children(fgraph, var))\n'))
quiet("others_subset", ("rewriting.py", "if get_measurable_children(fgraph, rv) - {node}:", "if has_other(fgraph, rv, node):"), ("rewriting.py", "    return children\n", '    return children\n\n\ndef has_other(fgraph, var, node):\n    return not get_measurable_children(fgraph, var) <= {node}\n'))
quiet("fold_len", ("rewriting.py", "ndim_diff = out_ndim - dim_shuffle_input.type.ndim", "ndim_diff = len(ds_order) - dim_shuffle_input.type.ndim"))
quiet("current_order", ("nuts.py", "current_values = {**realized_rvs_to_values, **to_sample_rvs}", "current_values = {**to_sample_rvs, **realized_rvs_to_values}"))
quiet("cast_count", ("gibbs.py", "w = srng.gen(polyagamma, y + h, X @ beta)", "w = srng.gen(polyagamma, y.astype(\"int64\") + h, X @ beta)"))
quiet("cast_state", ("ffbs.py", "state_np1 = srng.categorical(beta_N)", "state_np1 = srng.categorical(beta_N, dtype=\"int64\")"))
