from sa.check import equiv

# the constants, seen through the one operation that uses them
C = "variantlib.constants.VALIDATION_"
equiv("names.wheel", "spec.wheelname.is_wheel_name", "wheelname.has_wheel_shape", anchor=C + "WHEEL_NAME_REGEX")
equiv("names.wheel_parts", "spec.wheelname.parts", "wheelname.wheel_parts", anchor=C + "WHEEL_NAME_REGEX")
equiv("names.label", "spec.wheelname.is_label", "wheelname.label_shape", anchor=C + "VARIANT_LABEL_REGEX")
equiv("names.plugin_ref", "spec.wheelname.ref_parts", "wheelname.ref_shape", anchor=C + "PROVIDER_PLUGIN_API_REGEX")
