"""Documented default values.

Arguments of public constructors and methods which a check passes explicitly
and which equal the documented default are left out in every second case, so
that the default values themselves are part of what is checked. Only calls
that come directly from the checks are touched. Likewise, arrays are handed
over in different memory layouts (C, Fortran, strided), which must not matter.
"""
import functools
import importlib
import os
import sys
import zlib

import numpy as np

from .paths import VERIF

DOCUMENTED = {
    'solver_algorithms': {
        'SchroedingerSolver.__init__': dict(
            calculate_propagator_derivatives=True, is_skew_hermitian=True),
        'SchroedingerSMonteCarlo.__init__': dict(
            calculate_propagator_derivatives=False, processes=1,
            is_skew_hermitian=True),
        'SchroedingerSMCControlNoise.__init__': dict(
            calculate_propagator_derivatives=False, processes=1,
            is_skew_hermitian=True),
        'LindbladSolver.__init__': dict(
            calculate_unitary_derivatives=False, is_skew_hermitian=False),
    },
    'transfer_function': {
        'IdentityTF.__init__': dict(num_ctrls=1),
        'OversamplingTF.__init__': dict(
            num_ctrls=1, oversampling=1, bound_type=None),
        'ConvolutionTF.__init__': dict(mode='nearest', num_ctrls=1, cval=0.),
        'GaussianConvolution.__init__': dict(
            num_ctrls=1, order=0, mode='nearest', truncate=4.),
        'OversamplingMTF.__init__': dict(
            oversampling=1, bound_type=None, num_ctrls=1, offset=0),
        'CustomMTF.__init__': dict(
            x_times=None, bound_type=None, oversampling=1, offset=None,
            num_ctrls=1),
        'ExponentialMTF.__init__': dict(
            oversampling=1, bound_type=('x', 0), offset=None, num_ctrls=1),
    },
    'cost_functions': {
        'OperatorMatrixNorm.__init__': dict(mode='scalar', label=None),
        'state_fidelity': dict(
            computational_states=None, rescale_propagated_state=False),
        'derivative_state_fidelity': dict(
            computational_states=None, rescale_propagated_state=False),
        'entanglement_fidelity': dict(
            computational_states=None, map_to_closest_unitary=False),
        'derivative_entanglement_fidelity_with_du': dict(
            computational_states=None, map_to_closest_unitary=False),
        'StateInfidelity.__init__': dict(
            computational_states=None, rescale_propagated_state=False),
        'StateNoiseInfidelity.__init__': dict(
            computational_states=None, rescale_propagated_state=False,
            neglect_systematic_errors=True),
        'OperationInfidelity.__init__': dict(
            fidelity_measure='entanglement', super_operator_formalism=False,
            computational_states=None, map_to_closest_unitary=False),
        'OperationNoiseInfidelity.__init__': dict(
            fidelity_measure='entanglement', computational_states=None,
            map_to_closest_unitary=False, neglect_systematic_errors=True),
        'LeakageLiouville.__init__': dict(
            verbose=0, input_unitary=False, monte_carlo=False),
    },
    'noise': {
        'sample_1dim_gaussian_distribution': dict(mean=0),
        'fast_colored_noise': dict(
            r_power_of_two=False),
        'NTGQuasiStatic.__init__': dict(
            n_traces=1, noise_samples=None, always_redraw_samples=True,
            correct_std_for_discrete_sampling=True,
            sampling_mode='uncorrelated_deterministic'),
        'NTGColoredNoise.__init__': dict(
            n_traces=1, n_noise_operators=1, always_redraw_samples=True,
            low_frequency_extension_ratio=1),
    },
    'simulator': {
        'Simulator.__init__': dict(
            optimization_parameters=None, num_times=None,
            record_performance_statistics=True, numeric_jacobian=False),
        'Simulator.numeric_gradient': dict(delta_eps=1e-8, symmetric=False),
        'Simulator.compare_numeric_to_analytic_gradient': dict(
            delta_eps=1e-8, symmetric=False),
    },
    'optimize': {
        'LeastSquaresOptimizer.__init__': dict(
            termination_cond=None, save_intermediary_steps=True,
            method='trf', bounds=None, use_jacobian_function=True,
            cost_func_weights=None, store_optimizer=False),
        'ScalarMinimizingOptimizer.__init__': dict(
            termination_cond=None, save_intermediary_steps=True,
            method='L-BFGS-B', bounds=None, use_jacobian_function=True,
            cost_func_weights=None, store_optimizer=False),
        'SimulatedAnnealing.__init__': dict(
            store_optimizer=False, initial_temperature=1.,
            final_temperature=1e-6, step_size=1, step_ratio=1., steps=1000),
    },
    'matrix': {
        'DenseOperator.dag': dict(do_copy=True),
        'DenseOperator.conj': dict(do_copy=True),
        'DenseOperator.transpose': dict(do_copy=True),
        'DenseOperator.norm': dict(ord='fro'),
        'DenseOperator.ptrace': dict(do_copy=True),
        'DenseOperator.spectral_decomposition': dict(hermitian=False),
        'DenseOperator.exp': dict(
            tau=1, method='spectral', is_skew_hermitian=False),
        'DenseOperator.prop': dict(tau=1),
        'DenseOperator.dexp': dict(
            tau=1, compute_expm=False, method='spectral',
            is_skew_hermitian=False),
        'DenseOperator.truncate_to_subspace': dict(
            map_to_closest_unitary=False),
    },
    'analyser': {
        'Analyser.plot_costs': dict(n=0, log_y=True),
        'Analyser.integral_cost_fkt_times': dict(n=0),
        'Analyser.integral_grad_fkt_times': dict(n=0),
    },
    'energy_spectrum': {
        'plot_energy_spectrum': dict(use_spectral_decomposition=True),
    },
}

STATE = {'key': 0, 'dropped': 0}


def new_case(text):
    STATE['key'] = zlib.crc32(text.encode())


def _equals(a, b):
    if b is None or a is None:
        return a is b
    if isinstance(b, (str, tuple)) or isinstance(a, (str, tuple)):
        return type(a) is type(b) and a == b
    if isinstance(b, bool) or isinstance(a, bool):
        return a is b
    return isinstance(a, (int, float)) and a == b


def _wrap(fn, name, documented):
    @functools.wraps(fn)
    def call(*args, **kw):
        if kw and os.path.realpath(
                sys._getframe(1).f_code.co_filename).startswith(VERIF + '/'):
            for k in [k for k in kw if k in documented]:
                if _equals(kw[k], documented[k]) and zlib.crc32(
                        ('%d %s %s' % (STATE['key'], name, k)).encode()) & 1:
                    del kw[k]
                    STATE['dropped'] += 1
        return fn(*args, **kw)
    return call


def install():
    for module, table in DOCUMENTED.items():
        mod = importlib.import_module('qopt.' + module)
        for name, documented in table.items():
            owner = mod
            *cls, attr = name.split('.')
            for c in cls:
                owner = getattr(owner, c)
            fn = owner.__dict__[attr] if cls else getattr(owner, attr, None)
            if fn is None or isinstance(fn, (staticmethod, classmethod)):
                continue
            setattr(owner, attr, _wrap(fn, name, documented))


# ---------------------------------------------------------- memory layouts
ARRAYS = {
    'matrix': ['DenseOperator.__init__'],
    'transfer_function': ['*.__call__', '*.gradient_chain_rule'],
    'amplitude_functions': ['*.__call__', '*.derivative_by_chain_rule'],
    'solver_algorithms': ['*.set_optimization_parameters'],
    'simulator': ['Simulator.wrapped_cost_functions',
                  'Simulator.wrapped_jac_function',
                  'Simulator.numeric_gradient'],
    'optimize': ['*.run_optimization'],
}


def relayout(a, key):
    """The same array, stored differently."""
    if type(a) is not np.ndarray or a.ndim < 2 or a.size < 2:
        return a
    kind = zlib.crc32(key.encode()) % 4
    if kind == 0:
        return np.asfortranarray(a)
    if kind == 1:
        big = np.zeros(tuple(2 * n for n in a.shape), dtype=a.dtype)
        view = big[tuple(slice(None, None, 2) for _ in a.shape)]
        view[...] = a
        return view
    return a


def _wrap_layout(fn, name):
    @functools.wraps(fn)
    def call(*args, **kw):
        if os.path.realpath(
                sys._getframe(1).f_code.co_filename).startswith(VERIF + '/'):
            key = '%d layout %s' % (STATE['key'], name)
            args = args[:1] + tuple(relayout(a, key) for a in args[1:])
            kw = {k: relayout(a, key) for k, a in kw.items()}
        return fn(*args, **kw)
    return call


def install_layouts():
    for module, names in ARRAYS.items():
        mod = importlib.import_module('qopt.' + module)
        for name in names:
            cls_name, attr = name.split('.')
            for cls in list(vars(mod).values()):
                if not isinstance(cls, type) or cls.__module__ != \
                        mod.__name__ or cls_name not in ('*', cls.__name__):
                    continue
                fn = cls.__dict__.get(attr)
                if callable(fn) and not getattr(
                        fn, '__isabstractmethod__', False):
                    setattr(cls, attr, _wrap_layout(
                        fn, '%s.%s' % (cls.__name__, attr)))
