from v_c14 import attributes, OPTS


def build(repo, spec):
    return attributes(repo, spec, ('ad', 'AttributeDefinition', 'apply_custom_reader_attributedefinition', 'text_tag', '3 str prompt'))
