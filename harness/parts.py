"""The mutable parts reachable from an object, in an order which is the same for an object and its copies."""

import collections
import types

import numpy as np
import torch
from evotorch import Problem
from evotorch.algorithms.searchalgorithm import SearchAlgorithm
from evotorch.distributions import Distribution
from evotorch.operators.base import Operator
from evotorch.optimizers import ClipUp, TorchOptimizer
from evotorch.tools.hook import Hook


def is_core(x):
    """Parts with a role of their own, to which several other parts may refer."""
    return isinstance(x, (Problem, SearchAlgorithm, Operator, Distribution, Hook, torch.Generator, ClipUp, TorchOptimizer))


def parts(root, limit=20000, core=False):
    """Numbers naming the parts met along all paths from the root (equal numbers for the same part)."""
    found, seen = [], set()
    queue = collections.deque([root])
    while queue and len(found) < limit:
        x = queue.popleft()
        if x is None or isinstance(x, (bool, int, float, complex, str, bytes, type, types.FunctionType, types.BuiltinFunctionType, types.ModuleType)):
            continue
        if isinstance(x, (torch.dtype, torch.device, torch.Size, torch.Generator, np.dtype, np.generic)) and not isinstance(x, torch.Generator):
            continue
        if isinstance(x, torch.Tensor):
            if x.numel() > 0 and not core:
                found.append(x.untyped_storage().data_ptr())
            continue
        if isinstance(x, tuple):
            queue.extend(x)
            continue
        if isinstance(x, types.MethodType):
            queue.append(x.__self__)
            continue
        module = type(x).__module__ or ""
        if isinstance(x, (list, dict, set, np.ndarray, torch.Generator)) or module.startswith(("evotorch", "drivers")):
            if is_core(x) or not core:
                found.append(id(x))
        else:
            continue
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, dict):
            queue.extend(x.values())
        elif isinstance(x, (list, collections.deque)):
            queue.extend(x)
        elif isinstance(x, np.ndarray):
            if x.dtype == object:
                queue.extend(x.reshape(-1).tolist())
            elif x.size and not core:
                found.append(x.__array_interface__["data"][0])
        if module.startswith(("evotorch", "drivers")):
            attrs = getattr(x, "__dict__", {})
            queue.extend(attrs[k] for k in sorted(attrs))
            for c in type(x).__mro__:
                for k in getattr(c, "__slots__", ()):
                    queue.append(getattr(x, k, None))
    return found


def numbered(*lists):
    """Small numbers instead of addresses."""
    names = {}
    return [[names.setdefault(v, len(names) + 1) for v in lst] for lst in lists]
