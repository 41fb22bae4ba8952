from .initializers import normal, orthogonal
from .causal_conv import VerticalStackConv, HorizontalStackConv, CausalConv2d
