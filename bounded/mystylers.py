"""stylers with visible, non-commuting effects"""
from turms.stylers.base import BaseStyler, StylerConfig
from pydantic import Field


class MarkConfig(StylerConfig):
    type: str = ""
    mark: str = "M"
    node: str = ""


class MarkStyler(BaseStyler):
    config: MarkConfig = Field(default_factory=MarkConfig)

    def _s(self, n):
        return n + self.config.mark

    style_fragment_name = style_query_name = style_mutation_name = style_subscription_name = style_enum_name = style_input_name = style_object_name = _s

    def style_node_name(self, n):
        return n + self.config.node

    style_parameter_name = style_node_name


class LowerStyler(BaseStyler):
    """may style a name into a Python keyword"""

    config: StylerConfig = Field(default_factory=lambda: StylerConfig(type=""))

    def style_node_name(self, n):
        return n.lower()

    style_parameter_name = style_node_name
