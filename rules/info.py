from sa.check import equiv
from sa.terms import ty

from ._kt import K
from ._kt import KT_CFG

VI = "variantlib.models.variant_info."
AOT = {"opaque": {VI + "VariantInfo._get_expected_aot_namespaces", VI + "ProviderInfo"}}

equiv("info.process_common", VI + "VariantInfo._process_common", "info.process_common", ("raises", "heap", "fx"),
      cfg={**KT_CFG, **AOT})

VJ = "variantlib.variants_json.VariantsJson"
DI = "variantlib.variant_dist_info.VariantDistInfo"
PP = "variantlib.pyproject_toml.VariantPyProjectToml"
INFO = ty("variantlib.models.variant_info.VariantInfo")
VM = "variantlib.models.variant.VariantDescription."
VH = ("value", "raises", "heap", "fx")

equiv("info.provider.post_init", VI + "ProviderInfo.__post_init__", "info.provider_post_init", VH)
equiv("info.provider.object_reference", VI + "ProviderInfo.object_reference", "info.object_reference", VH)
equiv("info.copy_as_kwargs", VI + "VariantInfo.copy_as_kwargs", "info.copy_as_kwargs", VH)
equiv("info.provider_requires", VI + "VariantInfo.get_provider_requires", "info.get_provider_requires", VH)
PROC = {"opaque": {VJ + "._process", PP + "._process"}, "effects": {VJ + "._process", PP + "._process"}}
COMMON = {"effects": {VI + "VariantInfo._process_common"}}
equiv("json.from_info", VJ + ".__init__", "info.variants_json_from_info", VH, types={"variants_json": INFO}, splits=[{1: INFO}])
equiv("json.init", VJ + ".__init__", "info.variants_json_init", VH, cfg=PROC, splits=[{1: ty("dict", ty("str"), ty("any"))}])
equiv("json.process", VJ + "._process", "info.variants_json_process", VH, private=True,
      cfg={**KT_CFG, "opaque": {VM + "from_dict"}, **COMMON})
equiv("json.aot", VJ + "._get_expected_aot_namespaces", "info.aot_json", VH, private=True)
equiv("json.providers_dict", VJ + ".providers_dict", "info.providers_dict", VH)
equiv("json.to_str", VJ + ".to_str", "info.variants_json_str", VH, cfg={"opaque": {VM + "to_dict"}})
equiv("json.merge", VJ + ".merge", "info.merge", (*VH, "refused:variants"))
equiv("dist.from_info", DI + ".__init__", "info.variants_json_from_info", VH, splits=[{1: INFO}])
equiv("dist.read", DI + ".__init__", "info.dist_info_read", VH, cfg=PROC, splits=[{1: ty("str")}, {1: ty("bytes")}])
equiv("dist.label", DI + ".variant_label", "info.dist_label", VH)
equiv("dist.desc", DI + ".variant_desc", "info.dist_desc", VH)
equiv("dist.set_label", DI + ".variant_label.setter", "info.set_dist_label", VH)
equiv("dist.set_desc", DI + ".variant_desc.setter", "info.set_dist_desc", VH)
equiv("pyproject.from_info", PP + ".__init__", "info.pyproject_from_info", VH, splits=[{1: INFO}])
equiv("pyproject.read", PP + ".__init__", "info.pyproject_read", VH, cfg=PROC, splits=[{1: ty("dict", ty("str"), ty("any"))}])
equiv("pyproject.process", PP + "._process", "info.pyproject_process", VH, private=True, cfg={**KT_CFG, **COMMON})
equiv("pyproject.aot", PP + "._get_expected_aot_namespaces", "info.aot_pyproject", VH, private=True)
