from catalog import PROPS
