"""Schema templates and the documents checked against them (see vtool.template)."""


S20 = '"$schema":"https://json-schema.org/draft/2020-12/schema",'
S19 = '"$schema":"https://json-schema.org/draft/2019-09/schema",'
S07 = '"$schema":"http://json-schema.org/draft-07/schema#",'


def props(s, k='a', d=S20):
    return '{%s"properties":{"%s":%s}}' % (d, k, s)


def root(s, d=S20):
    return '{' + d + s[1:]


VAL = '«1|0|-3|7|1.5|-0.5|2.0|"x"|"xyz"|""|true|[]|[1]|[1,2]|{}|{x=1}»'
# (schema, document)
SCALAR = [
    (props('{"type":«"integer"|"number"|"string"|"boolean"|"array"|"object"|["integer","string"]|["number","null"]|["array","boolean"]|"null"»}'), 'a = ' + VAL + '\n'),
    (props('{«"type":"integer",|"type":"number",|»"minimum":«=-0123»,"maximum":«=24»}'), 'a = «=-1»«=0123»\n'),
    (props('{«"type":"integer",|"type":"number",|"type":"string",|»"«minimum|maximum|exclusiveMinimum|exclusiveMaximum»":«1|2|1.5|0.5|-1.5|3»}'), 'a = «-3|-1|0|1|2|3|4|1.5|0.5|2.5|1.0|"x"|3.0»\n'),
    (props('{«"type":"integer",|"type":"number",|"type":"string",|»"multipleOf":«1|2|3»}'), 'a = «-3|-1|0|1|2|4|1.5|0.5|2.5|1.0|"x"|3.0»\n'),
    (props('{"type":"number","multipleOf":«0.5|1.5|0.25»}'), 'a = «1.5|0.5|2.5|0.75|1.0|"x"|3.0|-4.5»\n'),
    (props('{«"type":"string",|»"«minLength|maxLength»":«=0123»}'), 'a = «""|"a"|"ab"|"abc"|"é"|"ああ"|"e\u0301"|1|[1,2,3]|"\\u00e9x"|\'\'\'\nab\'\'\'»\n'),
    (props('{«"type":"string",|»"pattern":"«a$|^a|^[a-c]+$|b|^.b|^ab$»"}'), 'a = «"«=abz»"|1|""|"ab"|"ba"|"cc"|"abz"»\n'.replace('«"«=abz»"|', '«"a"|"z"|')),
    (props('{«"type":"integer",|"type":"string",|"type":"number",|»"enum":[«1|2.5|"x"|true|[1]|{"x":1}|null|1.0»,«3|"y"»]}'), 'a = «1|1.0|2.5|3|"x"|"y"|true|false|[1]|[1.0]|{x=1}|{x=2}|[]»\n'),
    (props('{«"type":"integer",|"type":"string",|»"const":«1|2.5|"x"|true|[1]|{"x":1}|null»}'), 'a = «1|1.0|2.5|3|"x"|"y"|true|false|[1]|[1.0]|{x=1}|{x=2}|[]»\n'),
]
ARRAY = [
    (props('{«"type":"array",|»"«minItems|maxItems»":«=012»}'), 'a = «[]|[1]|[1,2]|[1,1,1]|1|"abc"|{x=1,y=2}»\n'),
    (props('{«"type":"array",|»"uniqueItems":«true|false»}'), 'a = [«1|"1"|1.0|true|[1]|{x=1}|[1,2]»,«1|"1"|1.5|true|[1]|{x=1}|{x=1,y=2}»«|,2|,1»]\n'),
    (props('{«"type":"array",|»"items":«{"type":"integer"}|true|false|{"minimum":2}|{"items":{"type":"string"}}|{}»}'), 'a = [«1|"x"|[]|["x"]|[1]|2»«|,3|,"y"|,[2]»]\n'),
    (props('{«"type":"array",|»"prefixItems":[{"type":"integer"},«{"type":"string"}|true|false»],"items":«{"type":"boolean"}|true|false»}'), 'a = [«1|"x"|»«,2|,"y"|»«,true|,3|»]\n'.replace('[«1|"x"|»«,2|,"y"|»', '[«1|"x"»«,2|,"y"|»')),
    (props('{«"type":"array",|»"contains":{"type":"integer"}«|,"minContains":0|,"minContains":2|,"maxContains":1|,"minContains":2,"maxContains":2»}'), 'a = [«1|"x"»«,2|,"y"|»«,3|,"z"|»]\n'),
    (props('{«"type":"array",|»"items":[{"type":"integer"},«{"type":"string"}|true»],"additionalItems":«{"type":"boolean"}|false»}', d=S07), 'a = [«1|"x"»«,2|,"y"|»«,true|,3|»]\n'),
]
TABLE = [
    (root('{«"type":"object",|»"properties":{"a":{"type":"integer"},"b":{"type":"string"}},"additionalProperties":«true|false|{"type":"boolean"}»«|,"required":["a"]|,"required":["a","b"]»}'), '«a = 1|a = "x"|»\n«b = "y"|b = 2|»\n«c = true|c = 3|»\n'),
    (root('{«"type":"object",|»"properties":{"a":{"type":"integer"}},"patternProperties":{"^«a|b|x-»":{"type":"«integer|string»"}},"additionalProperties":«true|false|{"type":"boolean"}»}'), '«a = 1|a = "x"|»\n«ab = "y"|b = 2|x-y = true|»\n'),
    (root('{«"type":"object",|»"«minProperties|maxProperties»":«=012»}'), '«a = 1|»\n«b = 1|»\n«c.d = 1|»\n'),
    (root('{«"type":"object",|»"propertyNames":«{"pattern":"^a"}|{"maxLength":1}|{"enum":["a","b"]}|false|true|{"minLength":2}»}'), '«a = 1|aa = 1|b = 1|»\n«[ab]\nx=1|[c]|»\n'),
    (root('{«"type":"object",|»"dependencies":{"a":["b"«|,"c"»]}}', S07), '«a = 1|»\n«b = 1|»\n«c = 1|»\n'),
    (root('{«"type":"object",|»"dependencies":{"a":«{"required":["b"]}|false|{"properties":{"c":{"type":"string"}}}»}}', S07), '«a = 1|»\n«b = 1|»\n«c = 1|c = "x"|»\n'),
    (root('{«"type":"object",|»"dependentRequired":{"a":["b"«|,"c"»]}}'), '«a = 1|»\n«b = 1|»\n«c = 1|»\n'),
    (root('{«"type":"object",|»"dependentSchemas":{"a":«{"required":["b"]}|false|{"properties":{"c":{"type":"string"}}}»}}'), '«a = 1|»\n«b = 1|»\n«c = 1|c = "x"|»\n'),
    (props('{"«additionalProperties|items|propertyNames|contains»":«false|{"type":"integer"}|{"minLength":2}»}'), 'a = «1|"x"|[]|[1]|["xx"]|{}|{b = 1}|{bb = "xx"}»\n'),
]
COMB = [
    (props('{"«anyOf|oneOf|allOf»":[{"type":"integer"},{"«minimum|maximum»":«=12»}«|,{"type":"string"}|,true|,false»]}'), 'a = «0|1|2|3|1.5|"x"|[]|{}|true»\n'),
    (props('{"not":«{"type":"integer"}|{"minimum":1}|true|false|{"type":["string","array"]}|{"required":["x"]}|{"not":{"type":"integer"}}»}'), 'a = ' + VAL + '\n'),
    (props('{«"type":"array",|"type":"object",|»"if":«{"type":"array"}|{"minItems":1}|true|{"required":["x"]}»«|,"then":{"maxItems":1}|,"then":{"type":"object"}|,"then":false»«|,"else":{"type":"array"}|,"else":false|,"else":{"minProperties":2}»}'), 'a = «[]|[1]|[1,2]|{}|{x=1}|{y=1,z=2}»\n'),
    (props('{"«anyOf|oneOf|allOf»":[true],"if":«{"type":"integer"}|{"minimum":1}|{"const":3}»«|,"then":{"maximum":2}|,"then":{"type":"string"}|,"then":false»«|,"else":{"type":"string"}|,"else":false|,"else":{"minLength":2}»}'), 'a = «0|1|3|1.5|"x"|"xy"|[]|{}|{x=1}»\n'),
    (root('{"if":{"properties":{"a":{"const":"«x|y»"}}«|,"required":["a"]»},"then":{"required":["b"]},"else":{"properties":{"b":{"type":"string"}}}}'), '«a = "x"|a = "z"|»\n«b = 1|b = "s"|»\n'),
    (props('{«"type":"integer",|"type":"string",|»"«anyOf|oneOf|allOf»":[{"minimum":1},{"maxLength":1}]«|,"not":{"const":2}»}'), 'a = «0|1|2|"x"|"xy"|[]»\n'),
    (root('{"«anyOf|oneOf|allOf»":[{"properties":{"a":{"type":"integer"}}«|,"required":["a"]|,"additionalProperties":false»},{"properties":{"b":{"type":"string"}}«|,"required":["b"]|,"additionalProperties":false»}]}'), '«a = 1|a = "x"|»\n«b = "y"|b = 2|»\n«c = 1|»\n'),
    (root('{«"$ref":"#/$defs/x"|"allOf":[{"$ref":"#/$defs/x"}]»,"$defs":{"x":{"type":"object","properties":{"a":{"$ref":"#/$defs/y"},"n":{"$ref":"#/$defs/x"}},"additionalProperties":«true|false»},"y":{"type":"integer","maximum":2}}}'), '«a = 1|a = 3|a = "x"|»\n«n.a = 1|n.a = 4|n.n.a = "x"|n = 1|b = 1|»\n'),
    (root('{"allOf":[{"$ref":"#/$defs/x"}],"$defs":{"x":{"type":"object","properties":{"a":{"$ref":"#/$defs/y"},"n":{"$ref":"#"}},"additionalProperties":«true|false»},"y":{"type":"integer","maximum":2}}}'), '«a = 1|a = 3|a = "x"|»\n«n.a = 1|n.a = 4|n.n.a = "x"|n = 1|b = 1|»\n'),
    (root('{"properties":{"a":{"allOf":[{"$ref":"#/$defs/y"}],"minimum":2},"b":{"$ref":"#/definitions/z"}},"$defs":{"y":{"type":"integer","maximum":3}},"definitions":{"z":{"items":{"$ref":"#/$defs/y"}}}}'), '«a = 1|a = 2|a = 4|a = "x"|»\n«b = [1]|b = [4]|b = ["x"]|b = 1|»\n'),
]
UA = '«a = 1|a = "x"|»\n«b = 1|»\n«c = 1|c = 3|»\n'
UNEVAL = [
    (root('{"properties":{"a":true},"«allOf|anyOf|oneOf»":[{"properties":{"b":{"type":"integer"}}«|,"required":["b"]»}«|,{"properties":{"c":{"type":"string"}},"required":["c"]}»],"unevaluatedProperties":«false|{"type":"boolean"}|true»}'), '«a = 1|»\n«b = 1|b = "x"|»\n«c = "x"|c = true|c = 2|d = 1|»\n'),
    (root('{"if":{"required":["a"]},"then":{"properties":{"a":true,"b":true}},"else":{"properties":{"c":true}},"unevaluatedProperties":false}'), '«a = 1|»\n«b = 1|»\n«c = 1|»\n«d = 1|»\n'),
    (props('{"prefixItems":[{"type":"integer"}]«|,"items":{"type":"integer"}|,"contains":{"type":"string"}»,"unevaluatedItems":«false|{"type":"boolean"}|true»}'), 'a = [«1|"x"»«,2|,"y"|,true|»«,true|,"z"|»]\n'),
    # what applicators evaluate
    (root('{"if":{"properties":{"a":{"type":"integer"}}«|,"required":["b"]»}«|,"then":{"properties":{"b":true}}|,"else":{"properties":{"c":true}}»,"unevaluatedProperties":«false|{"type":"boolean"}»}'), UA),
    (root('{"if":{"properties":{"a":{"type":"integer"}},"required":["a"]},"«then|else»":{"if":{"properties":{"b":true},"required":["b"]},"then":{"properties":{"c":true}}},"unevaluatedProperties":false}'), UA),
    (root('{"properties":{"a":true},"dependentSchemas":{"a":{"properties":{"«a|b»":true}«|,"required":["c"]»}},"unevaluatedProperties":«false|{"minimum":2}»}'), UA),
    (root('{"patternProperties":{"^«a|[ab]»":«true|{"type":"integer"}»}«|,"additionalProperties":{"type":"integer"}»,"unevaluatedProperties":false}'), UA),
    (root('{"«allOf|anyOf»":[{"$ref":"#/$defs/x"}]«|,"properties":{"a":{}}»,"unevaluatedProperties":false,"$defs":{"x":{"properties":{"b":true}«|,"required":["b"]|,"allOf":[{"properties":{"c":{}}}]»}}}'), UA),
    (props('{"«allOf|anyOf|oneOf»":[{"type":"array","prefixItems":[{"type":"integer"}]«|,"minItems":2|,"unevaluatedItems":true|,"unevaluatedItems":{"type":"integer"}»}«|,{"contains":{"type":"string"}}»],"unevaluatedItems":«false|{"type":"string"}»}'), 'a = [1«|, 2|, "x"»«|, 3|, "y"»]\n'),
    (root('{"«allOf|anyOf»":[{"properties":{"a":true},"unevaluatedProperties":«true|{"type":"integer"}|false»}«|,{"properties":{"b":true}}»],"unevaluatedProperties":«false|{"minimum":2}»}'), UA),
    (root('{"not":{"properties":{"a":{"type":"«string|integer»"}},"required":["a"]}«|,"properties":{"a":true}»,"unevaluatedProperties":false}'), UA),
    (root('{"anyOf":[{"properties":{"a":{"type":"integer"}},"required":["a"]},{"properties":{"b":true},"required":["b"]},{"properties":{"c":{"«minimum|maximum»":2}}}],"unevaluatedProperties":false}'), UA),
    (root('{"oneOf":[{"properties":{"a":{"type":"integer"}},"required":["a"]},{"properties":{"b":true,"a":{"type":"string"}},"required":["b"«|,"a"»]}],"unevaluatedProperties":«false|{"type":"integer"}»}'), UA),
    (root('{"allOf":[{"anyOf":[{"properties":{"a":true},"required":["a"]},{"properties":{"b":true}}]},{"properties":{"c":{"type":"integer"}}«|,"unevaluatedProperties":{"type":"integer"}»}],"unevaluatedProperties":«false|{"const":1}»}'), UA),
    (props('{"«allOf|anyOf»":[{"properties":{"x":{"properties":{"y":true},«"unevaluatedProperties":false|"type":"object"»}}}],"unevaluatedProperties":false}'), 'a = {«x.y = 1|x.z = 1|y = 1|x.y = 1, y = 1»}\n'),
    (props('{"minContains":«0|1|2»«|,"maxContains":2»,"contains":{"type":"«integer|string»"},"unevaluatedItems":«false|{"type":"string"}»}'), 'a = [«1|"x"|»«,2|,"y"|»«,3|,"z"|»]\n'.replace('[«1|"x"|»', '[«1|"x"»')),
    (props('{"prefixItems":[{"type":"integer"}],"contains":{"«minimum|maximum»":2},"unevaluatedItems":«false|{"type":"string"}»}'), 'a = [«1|3|»«|, »]\n'.replace('«1|3|»«|, »', '«1|3»«,1|,3|,"x"|»')),
    (props('{"«prefixItems":[true,true]|prefixItems":[true],"items":{"type":"string"}|items":{"type":"integer"}»,"unevaluatedItems":«false|{"type":"boolean"}»}'), 'a = [«1|"x"»«,2|,"y"|»«,true|,"z"|»]\n'),
    (props('{"if":{"contains":{"const":1}}«,"then":{"items":{"type":"integer"}}|,"else":{"items":{"type":"string"}}»,"unevaluatedItems":false}'), 'a = [«1|"x"»«,2|,"y"|»]\n'),
    (props('{"not":{"contains":{"const":«1|2»}«|,"minContains":2|,"maxContains":1»}}'), 'a = [«1|2|"x"»«,2|,1|»]\n'),
    (props('{"«oneOf|anyOf»":[{"contains":{"const":1}«|,"maxContains":1|,"minContains":2»},{"contains":{"const":2}«|,"maxContains":1»}]}'), 'a = [«1|2|"x"»«,2|,1|»]\n'),
    (props('{"«oneOf|anyOf|not»":«[{"minItems":2},{"maxItems":1},{"uniqueItems":true}]|{"uniqueItems":true}|{"minItems":2,"maxItems":2}»}'.replace('"«oneOf|anyOf|not»":«[{"minItems":2},{"maxItems":1},{"uniqueItems":true}]|{"uniqueItems":true}|{"minItems":2,"maxItems":2}»', '«"oneOf":[{"minItems":2},{"maxItems":1},{"uniqueItems":true}]|"anyOf":[{"minItems":3},{"uniqueItems":true}]|"not":{"uniqueItems":true}|"not":{"minItems":2,"maxItems":2}»')), 'a = [«1|2»«,2|,1|»«,3|»]\n'),
    (props('{«"oneOf":[{"minProperties":2},{"maxProperties":1},{"required":["x"]}]|"anyOf":[{"minProperties":3},{"required":["x"]}]|"not":{"required":["x"]}|"not":{"minProperties":2,"maxProperties":2}|"oneOf":[{"propertyNames":{"maxLength":1}},{"dependentRequired":{"x":["y"]}}]|"anyOf":[{"additionalProperties":false,"properties":{"x":true}},{"patternProperties":{"^y":{"type":"string"}},"required":["y"]}]|"not":{"dependentSchemas":{"x":{"required":["y"]}}}|"oneOf":[{"properties":{"x":{"type":"integer"}}},{"additionalProperties":{"type":"string"}}]»}'), 'a = {«x = 1|y = 1|x = "s"|zz = "s"»«, y2 = 1|, y2 = "s"|»«, "y" = 2|»}\n'.replace('«, "y" = 2|»', '')),
    (props('{«"oneOf":[{"minLength":2},{"maxLength":3},{"pattern":"^a"}]|"anyOf":[{"minLength":3},{"pattern":"b$"}]|"not":{"minLength":2,"maxLength":2}|"oneOf":[{"enum":["a","ab"]},{"const":"abc"},{"type":"string","minLength":2}]»}'), 'a = «"a"|"ab"|"abc"|"abcd"|"b"|1»\n'),
    (props('{«"oneOf":[{"exclusiveMinimum":2},{"exclusiveMaximum":4},{"multipleOf":2}]|"anyOf":[{"exclusiveMinimum":4},{"multipleOf":3}]|"not":{"minimum":2,"exclusiveMaximum":4}|"oneOf":[{"enum":[1,2]},{"const":3},{"type":"integer","minimum":2}]|"not":{"multipleOf":2}»}'), 'a = «0|1|2|3|4|5|1.5|2.5|4.5|"x"|true»\n'),
]
# assertions next to an applicator, inside the branch of another
ADJ = [
    (props('{"«anyOf|oneOf|allOf»":[{"minimum":3,"«allOf|anyOf|oneOf|not»":[{"maximum":5}]}«|,{"type":"string"}|,{"minimum":5}»]}'.replace('"«allOf|anyOf|oneOf|not»":[{"maximum":5}]', '«"allOf":[{"maximum":5}]|"anyOf":[{"maximum":5},{"minimum":7}]|"oneOf":[{"maximum":5}]|"not":{"maximum":3}»')), 'a = «1|3|4|5|6|7|"x"|1.5|4.5»\n'),
    (props('{"«anyOf|oneOf»":[{"minLength":2,"allOf":[{"maxLength":3}]},{"minItems":2,"anyOf":[{"maxItems":2}]},{"required":["x"],"oneOf":[{"properties":{"y":{"type":"integer"}}}]}]}'), 'a = «"x"|"xy"|"xyzw"|[1]|[1,2]|[1,2,3]|{x = 1}|{y = 1}|{x = 1, y = "s"}|1»\n'),
    (root('{"«anyOf|allOf|oneOf»":[{"properties":{"a":{"type":"integer"}},"allOf":[{"required":["b"]}]}«|,{"patternProperties":{"^c":{"type":"integer"}},"anyOf":[{"required":["c"]}]}»]«|,"unevaluatedProperties":false»}'), UA),
    (root('{"if":{"properties":{"a":{"type":"integer"}},"allOf":[{"required":["a"]}]},"then":{"required":["b"],"anyOf":[{"properties":{"b":{"const":1}}},{"properties":{"c":{"type":"integer"}},"required":["c"]}]},"else":{"not":{"required":["b"]},"anyOf":[{"required":["c"]}]}}'), UA),
    (root('{"not":{"properties":{"a":{"type":"integer"}},"allOf":[{"required":["a"]}]}}'), UA),
    (root('{"properties":{"a":{"items":{"minimum":2,"anyOf":[{"maximum":3},{"minimum":5}]},"allOf":[{"minItems":1}]},"b":{"contains":{"minimum":2,"allOf":[{"maximum":3}]}}}}'), '«a = [2]|a = [1]|a = [4]|a = []|a = [2,1]»\n«b = [2]|b = [1]|b = [4]|b = []|b = [4,3]|»\n'),
    (root('{"properties":{"a":{"«allOf|anyOf|oneOf»":[{"$ref":"#/$defs/x"}]},"b":{"$ref":"#/$defs/x"},"c":{"items":{"$ref":"#/$defs/y"}}},"$defs":{"x":{"minimum":3,«"allOf":[{"maximum":5}]|"anyOf":[{"maximum":5},{"minimum":7}]|"oneOf":[{"maximum":5}]|"not":{"maximum":3}|"allOf":[{"$ref":"#/$defs/y"}]»},"y":{"$ref":"#/$defs/z"},"z":{"type":"integer","maximum":5}}}'), '«a = 1|a = 4|a = 6|a = 7|a = "x"|b = 2|b = 3|b = 4|b = 6|c = [6]|c = [4]»\n'),
]
NEST = [
    (root('{"type":"object","properties":{"a":{"type":"array","items":{"type":"object","properties":{"n":{"type":"«string|integer»"},"v":{"oneOf":[{"type":"integer","minimum":2},{"type":"string","maxLength":2}]}},"required":["n"]«|,"additionalProperties":false»}}}}'),
     '[[a]]\nn = «1|"x"»\n«v = 1|v = 3|v = "xy"|v = "xyz"|w = 1|»\n«[[a]]|[[a]]\nn=1|»\n'),
]

# Known findings: (number, schema, document)
KNOWN = [
    (1, props('{"type":"integer","multipleOf":1.5}'), 'a = «1|2|3»\n'),
    (2, props('{«"type":"integer",|»"if":{"minimum":1},"then":{"maximum":2}}'), 'a = «0|2|3»\n'),
    (3, root('{"properties":{"a":{"$ref":"#/$defs/y","minimum":2}},"$defs":{"y":{"type":"integer","maximum":3}}}'), 'a = «1|3|4»\n'),
    (4, root('{"$ref":"#/$defs/x","$defs":{"x":{"type":"object","properties":{"a":{"type":"integer"},"n":{"$ref":"#"}}}}}'), 'n.a = «1|"x"»\n'),
]
