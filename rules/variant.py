from sa.check import equiv
from sa.terms import *  # noqa: F403
from sa.terms import NONE, TRUE, mk

from . import prop

V = "variantlib.models.variant."


def type_check(I, f, args, kwargs, st, fr, node):
    """validate_type(value, T): raises ValidationError unless `value` is of the run-time type T"""
    from sa.interp import Exit
    v = I.val(st, args[0])
    t = I.val(st, args[1] if len(args) > 1 else kwargs.get("expected_type"))
    g = not_(mk("call", "typed", (v, t), ()))
    fr.exits.append(Exit(and_(st.live, g), "raise", mk("exc", "variantlib.validators.base.ValidationError", ()),
                         dict(st.env), dict(st.heap), node))
    st.live = and_(st.live, not_(g))
    return NONE


CHECKED = {"models": {"variantlib.validators.base.validate_type": type_check}}

equiv("variant.feature.init", V + "VariantFeature.__post_init__", "variant.feature_init", ("raises", "heap"), cfg=CHECKED,
      self_type=V + "VariantFeature")
equiv("variant.property.init", V + "VariantProperty.__post_init__", "variant.property_init", ("raises", "heap"), cfg=CHECKED,
      self_type=V + "VariantProperty")
equiv("variant.description.init", V + "VariantDescription.__post_init__", "variant.description_init", ("raises", "heap"),
      cfg=CHECKED)
equiv("variant.feature.hash", V + "VariantFeature.feature_hash", "variant.feature_hash")
equiv("variant.property.hash", V + "VariantProperty.property_hash", "variant.property_hash")
equiv("variant.property.feature_object", V + "VariantProperty.feature_object", "variant.feature_object")
equiv("variant.feature.to_str", V + "VariantFeature.to_str", "variant.feature_to_str")
equiv("variant.property.to_str", V + "VariantProperty.to_str", "variant.property_to_str")
equiv("variant.feature.from_str", V + "VariantFeature.from_str", "variant.feature_from_str")
equiv("variant.property.from_str", V + "VariantProperty.from_str", "variant.property_from_str")
equiv("variant.feature.deserialize", V + "VariantFeature.deserialize", "variant.feature_deserialize")
equiv("variant.property.deserialize", V + "VariantProperty.deserialize", "variant.property_deserialize",
      self_type=V + "VariantProperty")
equiv("variant.feature.serialize", V + "VariantFeature.serialize", "variant.feature_serialize")
equiv("variant.property.serialize", V + "VariantProperty.serialize", "variant.property_serialize", self_type=V + "VariantProperty")
equiv("variant.is_null", V + "VariantDescription.is_null_variant", "variant.is_null")
equiv("variant.hexdigest", V + "VariantDescription.hexdigest", "variant.hexdigest")
equiv("variant.description.deserialize", V + "VariantDescription.deserialize", "variant.description_deserialize")
equiv("variant.description.serialize", V + "VariantDescription.serialize", "variant.description_serialize")
equiv("variant.to_dict", V + "VariantDescription.to_dict", "variant.to_dict")
equiv("variant.from_dict", V + "VariantDescription.from_dict", "variant.from_dict")
equiv("variant.is_valid", V + "VariantValidationResult.is_valid", "variant.is_valid")
equiv("variant.invalid", V + "VariantValidationResult.invalid_properties", "variant.invalid_properties")
equiv("variant.unknown", V + "VariantValidationResult.unknown_properties", "variant.unknown_properties")
