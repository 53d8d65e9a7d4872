from collections import defaultdict
from dataclasses import dataclass, field
from typing import Dict, List, Optional, Tuple

from aesara.compile.builders import OpFromGraph
from aesara.graph.basic import Variable
from aesara.tensor.var import TensorVariable


class SamplingStep(OpFromGraph):

    def __init__(self, inputs, outputs, inline=True, **kwargs):
        super().__init__(inputs, outputs, inline=inline, **kwargs)

    def connection_pattern(self, node):
        return [[False for _ in node.outputs] for _ in node.inputs]


@dataclass(frozen=True)
class Sampler:

    sample_steps: Dict[TensorVariable, TensorVariable]
    updates: Optional[Dict[Variable, TensorVariable]] = field(default_factory=dict)
    parameters: Dict[SamplingStep, Tuple[TensorVariable]] = field(default_factory=dict)

    stages: Dict[SamplingStep, List[TensorVariable]] = field(init=False)

    def __post_init__(self):
        stages = defaultdict(list)
        for rv, updated_rv in self.sample_steps.items():
            kernel = updated_rv.owner.op
            stages[kernel].append(rv)
        super().__setattr__("stages", stages)
