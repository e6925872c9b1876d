"""Every contract."""
import specs_node, specs_simple
import specs_data
import specs_text
import specs_attr
import specs_fmt
