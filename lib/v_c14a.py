from v_c14 import attributes, OPTS


def build(repo, spec):
    return attributes(repo, spec, ('at', 'Attribute', 'apply_custom_reader_attribute', 'attribute_tag', ''))
