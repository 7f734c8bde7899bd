# ruff: noqa
VENV = """    venv_python_executable = (
        venv_python_executable
        if venv_python_executable is None
        else pathlib.Path(venv_python_executable)
    )
"""
edit("api-helper-venv", A,
     ("def get_variants_by_priority(", '''def _as_path(p):
    if p is None:
        return None
    return pathlib.Path(p)


def get_variants_by_priority('''),
     (VENV, "    venv_python_executable = _as_path(venv_python_executable)\n"),
     (VENV, "    venv_python_executable = _as_path(venv_python_executable)\n"))
edit("api-helper-supported", A,
     ("def get_variants_by_priority(", '''def _flatten(plugin_loader):
    return [
        prop
        for cfg in plugin_loader.get_supported_configs().values()
        for prop in cfg.to_list_of_properties()
    ]


def get_variants_by_priority('''),
     ('''        supported_vprops = list(
            itertools.chain.from_iterable(
                provider_cfg.to_list_of_properties()
                for provider_cfg in plugin_loader.get_supported_configs().values()
            )
        )
''', "        supported_vprops = _flatten(plugin_loader)\n"),
     ('''        supported_vprops = list(
            itertools.chain.from_iterable(
                provider_cfg.to_list_of_properties()
                for provider_cfg in plugin_loader.get_supported_configs().values()
            )
        )
''', "        supported_vprops = _flatten(plugin_loader)\n"))
edit("api-labelmap-loop", A, ('''    label_map = {
        vdesc.hexdigest: label for label, vdesc in variants_json.variants.items()
    }
    # handle the implicit null variant
    label_map.setdefault(VariantDescription([]).hexdigest, NULL_VARIANT_LABEL)
''', '''    label_map = {VariantDescription().hexdigest: NULL_VARIANT_LABEL}
    for label, vdesc in variants_json.variants.items():
        label_map[vdesc.hexdigest] = label
'''))
edit("api-temporaries", A, ('''    return [
        label_map[vdesc.hexdigest]
        for vdesc in sort_and_filter_supported_variants(
            list(variants_json.variants.values()),
            supported_vprops,
            namespace_priorities=aggregate_namespace_priorities(
                config.namespace_priorities,
                variants_json.namespace_priorities,
            ),
            feature_priorities=aggregate_feature_priorities(
                config.feature_priorities,
                variants_json.feature_priorities,
            ),
            property_priorities=aggregate_property_priorities(
                config.property_priorities,
                variants_json.property_priorities,
            ),
        )
    ]
''', '''    property_priorities = aggregate_property_priorities(
        config.property_priorities, variants_json.property_priorities
    )
    feature_priorities = aggregate_feature_priorities(
        config.feature_priorities, variants_json.feature_priorities
    )
    namespace_priorities = aggregate_namespace_priorities(
        config.namespace_priorities, variants_json.namespace_priorities
    )
    vdescs = [*variants_json.variants.values()]
    ranked = sort_and_filter_supported_variants(
        vdescs,
        supported_vprops,
        namespace_priorities,
        feature_priorities,
        property_priorities,
    )
    labels = []
    for vdesc in ranked:
        labels.append(label_map[vdesc.hexdigest])
    return labels
'''))
edit("api-validate-loops", A, ('''        configs = {
            namespace: {
                cfeat.name: (cfeat.values, cfeat.multi_value)
                for cfeat in configs.configs
            }
            for namespace, configs in plugin_loader.get_all_configs().items()
        }

    return VariantValidationResult(
        results={
            vprop: None
            if vprop.namespace not in configs
            else (
                vprop.value
                in configs[vprop.namespace].get(vprop.feature, ([], False))[0]
            )
            for vprop in variant_desc.properties
        },
''', '''        all_configs = plugin_loader.get_all_configs()

    configs = {}
    for namespace, provider_cfg in all_configs.items():
        features = configs.setdefault(namespace, {})
        for cfeat in provider_cfg.configs:
            features[cfeat.name] = (cfeat.values, cfeat.multi_value)

    results = {}
    for vprop in variant_desc.properties:
        features = configs.get(vprop.namespace)
        if features is None:
            results[vprop] = None
            continue
        values, _ = features.get(vprop.feature, ([], False))
        results[vprop] = vprop.value in values

    return VariantValidationResult(
        results=results,
'''))
edit("api-validate-count", A, ('''        multi_value_violations=frozenset(
            {
                VariantFeature(namespace, feature)
                for namespace, features in configs.items()
                for feature, (_, multi_value) in features.items()
                if not multi_value
                and len(
                    [
                        True
                        for vprop in variant_desc.properties
                        if vprop.namespace == namespace and vprop.feature == feature
                    ]
                )
                > 1
            }
        ),
''', '''        multi_value_violations=frozenset(
            VariantFeature(namespace, feature)
            for namespace, features in configs.items()
            for feature, (_, multi_value) in features.items()
            if not multi_value
            and sum(
                1
                for vprop in variant_desc.properties
                if vprop.namespace == namespace and vprop.feature == feature
            )
            >= 2
        ),
'''))
edit("api-distinfo-helper", A, ('''        namespaces = {vprop.namespace for vprop in vdesc.properties}
        build_namespaces = {
            ns
            for ns in namespaces
            if ns in variant_info.providers
            and not variant_info.providers[ns].install_time
            and variant_info.providers[ns].requires
        }
''', '''        build_namespaces = set()
        for vprop in vdesc.properties:
            provider = variant_info.providers.get(vprop.namespace)
            if provider is None:
                continue
            if provider.install_time or not provider.requires:
                continue
            build_namespaces.add(vprop.namespace)
'''))
edit("api-distinfo-inner", A, ('''                variant_json.static_properties[config.namespace] = {}
                for vfeat in config.configs:
                    if vfeat.multi_value:
                        raise ValidationError(
                            f"Feature '{config.namespace} :: {vfeat.name}' is "
                            "multi-value, which is invalid for ahead-of-time plugins"
                        )
                    variant_json.static_properties[config.namespace][vfeat.name] = (
                        vfeat.values
                    )
''', '''                static_features = {}
                variant_json.static_properties[config.namespace] = static_features
                for vfeat in config.configs:
                    if vfeat.multi_value:
                        raise ValidationError("multi-value")
                    static_features[vfeat.name] = vfeat.values
'''), ('''            if vprop.namespace not in build_namespaces:
                continue
            if vprop.value not in variant_json.static_properties[vprop.namespace].get(
                vprop.feature, []
            ):
                raise''', '''            if (
                vprop.namespace in build_namespaces
                and vprop.value
                not in variant_json.static_properties[vprop.namespace].get(
                    vprop.feature, []
                )
            ):
                raise'''))
edit("api-check-any", A, ('''    return bool(
        list(
            filter_variants(
                vdescs=[vdesc],
                allowed_properties=supported_vprops,
            )
        )
    )
''', '''    matching = list(filter_variants([vdesc], supported_vprops))
    return len(matching) > 0
'''))
edit("api-check-guard", A, ('''    if vdesc is None:
        if variant_info is None or not isinstance(variant_info, VariantsJson):
            raise TypeError("vdesc or variant_info=VariantsJson(...) must be provided")
        if len(variant_info.variants) != 1:
            raise ValueError(
                "variant_info=VariantsJson(...) must describe exactly one variant"
            )
        vdesc = next(iter(variant_info.variants.values()))
''', '''    if vdesc is None:
        if not isinstance(variant_info, VariantsJson):
            raise TypeError("vdesc or variant_info=VariantsJson(...) must be provided")
        variants = list(variant_info.variants.values())
        if len(variants) != 1:
            raise ValueError("exactly one")
        (vdesc,) = variants
'''))
edit("api-env-loop", A, ('''    ret: dict[str, set[str] | str] = {
        "variant_namespaces": {vprop.namespace for vprop in variant_desc.properties},
        "variant_features": {
            vprop.feature_object.to_str() for vprop in variant_desc.properties
        },
        "variant_properties": {vprop.to_str() for vprop in variant_desc.properties},
    }
    if variant_label is not None:
        ret["variant_label"] = variant_label
    return ret
''', '''    namespaces, features, properties = set(), set(), set()
    for vprop in variant_desc.properties:
        namespaces.add(vprop.namespace)
        features.add(VariantFeature(vprop.namespace, vprop.feature).to_str())
        properties.add(vprop.to_str())
    ret = {}
    ret["variant_namespaces"] = namespaces
    ret["variant_features"] = features
    ret["variant_properties"] = properties
    if variant_label is None:
        return ret
    return {**ret, "variant_label": variant_label}
'''))
edit("api-label-flat", A, ('''    if custom_label is None:
        return (
            NULL_VARIANT_LABEL
            if variant_desc.is_null_variant()
            else variant_desc.hexdigest
        )

    if variant_desc.is_null_variant():
        if custom_label != NULL_VARIANT_LABEL:
            raise ValidationError(
                f"Null variant must always use {NULL_VARIANT_LABEL!r} label"
            )
    elif custom_label == NULL_VARIANT_LABEL:
        raise ValidationError(
            f"{NULL_VARIANT_LABEL!r} label can be used only for the null variant"
        )
    elif not VALIDATION''', '''    is_null = variant_desc.is_null_variant()
    if custom_label is None:
        if is_null:
            return NULL_VARIANT_LABEL
        return variant_desc.hexdigest

    if is_null:
        if custom_label == NULL_VARIANT_LABEL:
            return custom_label
        raise ValidationError("Null variant")
    if custom_label == NULL_VARIANT_LABEL:
        raise ValidationError("reserved")
    if not VALIDATION'''))
# ---------------------------------------------------------------- filtering
edit("filter-dup-loop", F, ('''    yield from filter(_should_include, vdescs)


def filter_variants_by_namespaces(''', '''    for vdesc in vdescs:
        if _should_include(vdesc):
            yield vdesc


def filter_variants_by_namespaces('''))
edit("filter-dup-inline", F, ('''    seen = set()

    def _should_include(vdesc: VariantDescription) -> bool:
        """
        Check if any of the namespaces in the variant description are not allowed.
        """
        validate_type(vdesc, VariantDescription)

        if vdesc.hexdigest in seen:
            logger.info(
                "Variant `%(vhash)s` has been removed because it is a duplicate",
                {"vhash": vdesc.hexdigest},
            )
            return False

        seen.add(vdesc.hexdigest)
        return True

    yield from filter(_should_include, vdescs)
''', '''    seen = set()
    for vdesc in vdescs:
        validate_type(vdesc, VariantDescription)
        digest = vdesc.hexdigest
        if digest not in seen:
            seen.add(digest)
            yield vdesc
        else:
            logger.info("Variant %s is a duplicate", digest)
'''))
edit("filter-ns-any", F, ('''        if forbidden_vprops := [
            vprop
            for vprop in vdesc.properties
            if vprop.namespace in _forbidden_namespaces
        ]:
            logger.info(
                "Variant `%(vhash)s` has been rejected because one or many of the "
                "variant namespaces `[%(vprops)s]` have been explicitly rejected.",
                {
                    "vhash": vdesc.hexdigest,
                    "vprops": ", ".join([vprop.to_str() for vprop in forbidden_vprops]),
                },
            )
            return False

        return True
''', '''        rejected = any(
            vprop.namespace in _forbidden_namespaces for vprop in vdesc.properties
        )
        if rejected:
            logger.info("rejected %s", vdesc.hexdigest)
        return not rejected
'''), ('''    _forbidden_namespaces = set(forbidden_namespaces)
''', '''    _forbidden_namespaces = frozenset(forbidden_namespaces)
'''))
edit("filter-ns-disjoint", F, ('''        if forbidden_vprops := [
            vprop
            for vprop in vdesc.properties
            if vprop.namespace in _forbidden_namespaces
        ]:
            logger.info(
                "Variant `%(vhash)s` has been rejected because one or many of the "
                "variant namespaces `[%(vprops)s]` have been explicitly rejected.",
                {
                    "vhash": vdesc.hexdigest,
                    "vprops": ", ".join([vprop.to_str() for vprop in forbidden_vprops]),
                },
            )
            return False

        return True
''', '''        used = {vprop.namespace for vprop in vdesc.properties}
        return used.isdisjoint(_forbidden_namespaces)
'''))
edit("filter-common-helper", F, ('''def remove_duplicates(
''', '''def _log_rejection(vdesc, forbidden_vprops, what):
    logger.info(
        "Variant `%(vhash)s` has been rejected because one or many of the "
        "variant %(what)s `[%(vprops)s]` have been explicitly rejected.",
        {
            "vhash": vdesc.hexdigest,
            "what": what,
            "vprops": ", ".join([vprop.to_str() for vprop in forbidden_vprops]),
        },
    )


def _forbidden(vdesc, predicate):
    return [vprop for vprop in vdesc.properties if predicate(vprop)]


def remove_duplicates(
'''), ('''        if forbidden_vprops := [
            vprop
            for vprop in vdesc.properties
            if vprop.namespace in _forbidden_namespaces
        ]:
            logger.info(
                "Variant `%(vhash)s` has been rejected because one or many of the "
                "variant namespaces `[%(vprops)s]` have been explicitly rejected.",
                {
                    "vhash": vdesc.hexdigest,
                    "vprops": ", ".join([vprop.to_str() for vprop in forbidden_vprops]),
                },
            )
            return False
''', '''        forbidden_vprops = _forbidden(
            vdesc, lambda vprop: vprop.namespace in _forbidden_namespaces
        )
        if forbidden_vprops:
            _log_rejection(vdesc, forbidden_vprops, "namespaces")
            return False
'''), ('''        if forbidden_vprops := [
            vprop
            for vprop in vdesc.properties
            if vprop.feature_hash in forbidden_feature_hexs
        ]:
            logger.info(
                "Variant `%(vhash)s` has been rejected because one or many of the "
                "variant features `[%(vprops)s]` have been explicitly rejected.",
                {
                    "vhash": vdesc.hexdigest,
                    "vprops": ", ".join([vprop.to_str() for vprop in forbidden_vprops]),
                },
            )
            return False
''', '''        forbidden_vprops = _forbidden(
            vdesc, lambda vprop: vprop.feature_hash in forbidden_feature_hexs
        )
        if forbidden_vprops:
            _log_rejection(vdesc, forbidden_vprops, "features")
            return False
'''))
edit("filter-feature-objects", F, ('''    forbidden_feature_hexs = {vfeat.feature_hash for vfeat in forbidden_features}
''', '''    forbidden_feature_hexs = {
        (vfeat.namespace, vfeat.feature) for vfeat in forbidden_features
    }
'''), ('''            if vprop.feature_hash in forbidden_feature_hexs
''', '''            if (vprop.namespace, vprop.feature) in forbidden_feature_hexs
'''))
edit("filter-prop-setdefault", F, ('''    allowed_props_dict: dict[
        tuple[VariantNamespace, VariantFeatureValue], set[VariantFeatureValue]
    ] = defaultdict(set)
    for vprop in allowed_properties:
        allowed_props_dict[(vprop.namespace, vprop.feature)].add(vprop.value)
''', '''    allowed_props_dict = {}
    for vprop in allowed_properties:
        allowed_props_dict.setdefault((vprop.namespace, vprop.feature), set()).add(
            vprop.value
        )
'''), ('''    allowed_properties = list(
        filter(
            lambda vprop: vprop.property_hash not in forbidden_properties_hexs,
            allowed_properties,
        )
    )
''', '''    allowed_properties = [
        vprop
        for vprop in allowed_properties
        if vprop.property_hash not in forbidden_properties_hexs
    ]
'''))
edit("filter-prop-any", F, ('''            for property_value in property_values:
                if property_value in allowed_props:
                    break

            else:
                # We''', '''            if not any(value in allowed_props for value in property_values):
                # We'''))
edit("filter-prop-isdisjoint", F, ('''            for property_value in property_values:
                if property_value in allowed_props:
                    break

            else:
                # We''', '''            if allowed_props.isdisjoint(property_values):
                # We'''))
edit("filter-prop-all", F, ('''        for (ns, vfeat_name), property_values in vdesc_prop_dict.items():
            if not (allowed_props := allowed_props_dict.get((ns, vfeat_name))):''', '''        for key, property_values in vdesc_prop_dict.items():
            ns, vfeat_name = key
            allowed_props = allowed_props_dict.get(key, set())
            if len(allowed_props) == 0:'''))
edit("filter-default-or", F, ('''    if forbidden_properties is None:
        forbidden_properties = []
''', '''    forbidden_properties = [] if forbidden_properties is None else forbidden_properties
'''), ('''    if forbidden_namespaces is None:
        forbidden_namespaces = []
''', '''    forbidden_namespaces = forbidden_namespaces or []
'''))
# ---------------------------------------------------------------- lib
edit("lib-versions-list", LB, ('''def _generate_version_matches(version: str) -> Generator[str]:
    vspec = Version(version)
    yield f"{vspec.major}"
    yield f"{vspec.major}.{vspec.minor}"
    yield f"{vspec.major}.{vspec.minor}.{vspec.micro}"
''', '''def _generate_version_matches(version: str) -> list[str]:
    vspec = Version(version)
    major, minor, micro = vspec.major, vspec.minor, vspec.micro
    return [f"{major}", f"{major}.{minor}", f"{major}.{minor}.{micro}"]
'''))
edit("lib-versions-join", LB, ('''    vspec = Version(version)
    yield f"{vspec.major}"
    yield f"{vspec.major}.{vspec.minor}"
    yield f"{vspec.major}.{vspec.minor}.{vspec.micro}"
''', '''    vspec = Version(version)
    parts = [str(vspec.major), str(vspec.minor), str(vspec.micro)]
    for count in (1, 2, 3):
        yield ".".join(parts[:count])
'''))
edit("lib-env-helper", LB, ('''    packages = {
        _normalize_package_name(dist.name): dist.version
        for dist in importlib.metadata.distributions()
    }
''', '''    packages = {}
    for dist in importlib.metadata.distributions():
        packages[_normalize_package_name(dist.name)] = dist.version
'''), ('''    for pkg_name, pkg_version in sorted(packages.items()):
        supported_vprops.extend(
            VariantProperty(
                namespace=VARIANT_ABI_DEPENDENCY_NAMESPACE,
                feature=pkg_name,
                value=_ver,
            )
            for _ver in _generate_version_matches(pkg_version)
        )
''', '''    for pkg_name in sorted(packages):
        for _ver in _generate_version_matches(packages[pkg_name]):
            supported_vprops.append(
                VariantProperty(VARIANT_ABI_DEPENDENCY_NAMESPACE, pkg_name, _ver)
            )
'''))
edit("lib-env-partition", LB, ('''            try:
                pkg_name, pkg_version = pkg_spec.split("==", maxsplit=1)
            except ValueError:
                logger''', '''            pkg_name, sep, pkg_version = pkg_spec.partition("==")
            if not sep:
                logger'''))
edit("lib-env-in", LB, ('''            if (old_version := packages.get(pkg_name)) is not None:
''', '''            if pkg_name in packages:
                old_version = packages[pkg_name]
'''))
edit("lib-pipeline-copies", LB, ('''    vdescs = vdescs.copy()
    namespace_priorities = namespace_priorities.copy()
    supported_vprops = supported_vprops.copy()
''', '''    vdescs = list(vdescs)
    namespace_priorities = list(namespace_priorities)
    supported_vprops = [*supported_vprops]
'''), ('''    if (null_variant := VariantDescription()) not in vdescs:
''', '''    null_variant = VariantDescription()
    if null_variant not in vdescs:
'''))
edit("lib-pipeline-isnull", LB, ('''    if (null_variant := VariantDescription()) not in vdescs:
''', '''    null_variant = VariantDescription()
    if not any(vdesc.is_null_variant() for vdesc in vdescs):
'''))
edit("lib-pipeline-dead", LB, ('''    if supported_vprops is None:
        """No supported properties provided, return no variants."""
        return []

''', ''))
edit("lib-pipeline-isolate", LB, ('''def sort_and_filter_supported_variants(
''', '''def _with_null_variant(vdescs):
    null_variant = VariantDescription()
    if null_variant in vdescs:
        return list(vdescs)
    return [*vdescs, null_variant]


def sort_and_filter_supported_variants(
'''), ('''    vdescs = vdescs.copy()
''', ''), ('''    if (null_variant := VariantDescription()) not in vdescs:
        """Add a null variant description to the list."""
        # This is needed to ensure that we always consider the null variant
        # to fall back on when no other variants are available.
        #
        # This can be used to provide a different default build when using
        # a variant-enabled installer.
        vdescs.append(null_variant)
''', '''    vdescs = _with_null_variant(vdescs)
'''))
edit("lib-pipeline-order", LB, ('''    filtered_vdescs = list(
        filter_variants(
            vdescs=vdescs,
            allowed_properties=supported_vprops,
            forbidden_namespaces=forbidden_namespaces,
            forbidden_features=forbidden_features,
            forbidden_properties=forbidden_properties,
        )
    )
''', ''), ('''    # Step 3: we sort''', '''    filtered_vdescs = [
        vdesc
        for vdesc in filter_variants(
            vdescs,
            supported_vprops,
            forbidden_namespaces,
            forbidden_features,
            forbidden_properties,
        )
    ]

    # Step 3: we sort'''))
edit("lib-filter-pipeline", LB, ('''    if forbidden_namespaces is not None:
        result = filter_variants_by_namespaces(
            vdescs=result,
            forbidden_namespaces=forbidden_namespaces,
        )

    # Step 3 [Optional]
    # Remove any `VariantDescription` which declares any `VariantProperty` with
    # `namespace :: feature` (aka. `VariantFeature`) explicitly forbidden by the user.
    if forbidden_features is not None:
        result = filter_variants_by_features(
            vdescs=result,
            forbidden_features=forbidden_features,
        )
''', '''    if forbidden_features is not None:
        result = filter_variants_by_features(result, forbidden_features)

    if forbidden_namespaces is not None:
        result = filter_variants_by_namespaces(result, forbidden_namespaces)
'''))
# ---------------------------------------------------------------- sorting
edit("sort-index-helper", SO, ('''def get_property_priorities(
''', '''def _position(items, item):
    try:
        return items.index(item)
    except ValueError:
        return sys.maxsize


def get_property_priorities(
'''), ('''    try:
        return (
            property_priorities.get(vprop.namespace, {})
            .get(vprop.feature, [])
            .index(vprop.value)
        )
    except ValueError:
        return sys.maxsize
''', '''    return _position(
        property_priorities.get(vprop.namespace, {}).get(vprop.feature, []),
        vprop.value,
    )
'''), ('''    try:
        return feature_priorities.get(vprop.namespace, []).index(vprop.feature)
    except ValueError:
        return sys.maxsize
''', '''    return _position(feature_priorities.get(vprop.namespace, []), vprop.feature)
'''), ('''    try:
        return namespace_priorities.index(vprop.namespace)
    except ValueError:
        return sys.maxsize
''', '''    return _position(namespace_priorities, vprop.namespace)
'''))
edit("sort-index-if", SO, ('''    try:
        return feature_priorities.get(vprop.namespace, []).index(vprop.feature)
    except ValueError:
        return sys.maxsize
''', '''    names = feature_priorities.get(vprop.namespace, [])
    if vprop.feature in names:
        return names.index(vprop.feature)
    return sys.maxsize
'''), ('''    try:
        return namespace_priorities.index(vprop.namespace)
    except ValueError:
        return sys.maxsize
''', '''    for position, name in enumerate(namespace_priorities):
        if name == vprop.namespace:
            return position
    return sys.maxsize
'''))
edit("sort-missing", SO, ('''    found_namespaces = {vprop.namespace for vprop in vprops}

    if missing := found_namespaces.difference(namespace_priorities):
        raise''', '''    missing = {vprop.namespace for vprop in vprops} - set(namespace_priorities)
    if missing:
        raise'''))
edit("sort-missing-loop", SO, ('''    found_namespaces = {vprop.namespace for vprop in vprops}

    if missing := found_namespaces.difference(namespace_priorities):
        raise''', '''    missing = [
        vprop.namespace
        for vprop in vprops
        if vprop.namespace not in namespace_priorities
    ]
    if len(missing) != 0:
        raise'''))
# ---------------------------------------------------------------- variant
edit("variant-hash-join", VA, ('''        for vprop in self.properties:
            hash_object.update(f"{vprop.to_str()}\\n".encode())
''', '''        serialized = "".join(f"{vprop.to_str()}\\n" for vprop in self.properties)
        hash_object.update(serialized.encode("utf-8"))
'''))
edit("variant-hash-two", VA, ('''            hash_object.update(f"{vprop.to_str()}\\n".encode())
''', '''            hash_object.update(vprop.to_str().encode())
            hash_object.update(b"\\n")
'''), ('''        return hash_object.hexdigest()[:VARIANT_HASH_LENGTH]
''', '''        digest = hash_object.hexdigest()
        return digest[0:VARIANT_HASH_LENGTH]
'''))
edit("variant-hash-direct", VA, ('''        hash_object = hashlib.sha256()
''', ''), ('''        for vprop in self.properties:
            hash_object.update(f"{vprop.to_str()}\\n".encode())
''', '''        lines = [vprop.to_str() + "\\n" for vprop in self.properties]
        hash_object = hashlib.sha256("".join(lines).encode())
'''))
edit("variant-null-len", VA, ("        return not self.properties\n", "        return len(self.properties) == 0\n"))
edit("variant-todict", VA, ('''        data = asdict(self)

        result: defaultdict[str, dict[str, list[str]]] = defaultdict(
            lambda: defaultdict(list)
        )

        for vprop in data["properties"]:
            namespace = vprop["namespace"]
            feature = vprop["feature"]
            value = vprop["value"]
            result[namespace][feature].append(value)

        return dict(result)
''', '''        result = {}
        for vprop in self.properties:
            features = result.setdefault(vprop.namespace, {})
            features.setdefault(vprop.feature, []).append(vprop.value)
        return result
'''))
edit("variant-fromdict", VA, ('''        vprops = [
            VariantProperty(namespace=namespace, feature=key, value=vprop_val)
            for namespace, vdata in data.items()
            for key, vprop_values in vdata.items()
            for vprop_val in vprop_values
        ]

        return cls(vprops)
''', '''        vprops = []
        for namespace, features in data.items():
            for feature in features:
                vprops.extend(
                    VariantProperty(namespace, feature, value)
                    for value in features[feature]
                )
        return cls(properties=vprops)
'''))
edit("variant-isvalid", VA, ('''        return (
            not self.multi_value_violations
            and False not in self.results.values()
            and (allow_unknown_plugins or None not in self.results.values())
        )
''', '''        if self.multi_value_violations:
            return False
        if self.invalid_properties:
            return False
        return allow_unknown_plugins or not self.unknown_properties
'''))
edit("variant-isvalid-loop", VA, ('''        return (
            not self.multi_value_violations
            and False not in self.results.values()
            and (allow_unknown_plugins or None not in self.results.values())
        )
''', '''        if len(self.multi_value_violations) > 0:
            return False
        for verdict in self.results.values():
            if verdict is False:
                return False
            if verdict is None and not allow_unknown_plugins:
                return False
        return True
'''))
edit("variant-fromstr", VA, ('''        namespace = match.group("namespace")
        feature = match.group("feature")
        value = match.group("value")

        # Return an instance of VariantProperty using the parsed values
        return cls(namespace=namespace, feature=feature, value=value)
''', '''        return cls(**match.groupdict())
'''))
edit("variant-fromstr2", VA, ('''        namespace = match.group("namespace")
        feature = match.group("feature")

        # Return an instance of VariantFeature using the parsed values
        return cls(namespace=namespace, feature=feature)
''', '''        namespace, feature = match.group("namespace", "feature")
        return cls(namespace, feature)
'''), ('''        return f"{self.namespace} :: {self.feature}"
''', '''        return " :: ".join((self.namespace, self.feature))
'''), ('''        return f"{self.namespace} :: {self.feature} :: {self.value}"
''', '''        return f"{super().to_str()} :: {self.value}"
'''))
edit("variant-sort-try", VA, ('''        with contextlib.suppress(AttributeError):
            # Only "legal way" to modify a frozen dataclass attribute post init.
            object.__setattr__(self, "properties", sorted(self.properties))
''', '''        try:
            ordered = sorted(self.properties)
            object.__setattr__(self, "properties", ordered)
        except AttributeError:
            pass
'''))
# ---------------------------------------------------------------- variants_json
edit("json-dict-helper", VJ, ('''    @staticmethod
    def _provider_info_to_json(
        provider_info: ProviderInfo,
    ) -> Generator[tuple[str, str | list[str] | bool]]:
        if provider_info.requires:
            yield (VARIANT_INFO_PROVIDER_REQUIRES_KEY, provider_info.requires)
        if provider_info.enable_if is not None:
            yield (VARIANT_INFO_PROVIDER_ENABLE_IF_KEY, provider_info.enable_if)
        if provider_info.optional:
            yield (VARIANT_INFO_PROVIDER_OPTIONAL_KEY, provider_info.optional)
        if provider_info.plugin_api is not None:
            yield (VARIANT_INFO_PROVIDER_PLUGIN_API_KEY, provider_info.plugin_api)
        if not provider_info.install_time:
            yield (VARIANT_INFO_PROVIDER_INSTALL_TIME_KEY, provider_info.install_time)
''', '''    @staticmethod
    def _provider_info_to_json(provider_info):
        result = {}
        if provider_info.requires:
            result[VARIANT_INFO_PROVIDER_REQUIRES_KEY] = provider_info.requires
        if provider_info.plugin_api is not None:
            result[VARIANT_INFO_PROVIDER_PLUGIN_API_KEY] = provider_info.plugin_api
        if provider_info.enable_if is not None:
            result[VARIANT_INFO_PROVIDER_ENABLE_IF_KEY] = provider_info.enable_if
        if provider_info.optional:
            result[VARIANT_INFO_PROVIDER_OPTIONAL_KEY] = True
        if not provider_info.install_time:
            result[VARIANT_INFO_PROVIDER_INSTALL_TIME_KEY] = False
        return result
'''), ("dict(self._provider_info_to_json(provider_info))", "self._provider_info_to_json(provider_info)"))
edit("json-tostr", VJ, ('''        data: dict[str, Any] = {
            VARIANTS_JSON_SCHEMA_KEY: VARIANTS_JSON_SCHEMA_URL,
            VARIANT_INFO_DEFAULT_PRIO_KEY: dict(self._priorities_to_json()),
            VARIANT_INFO_PROVIDER_DATA_KEY: self.providers_dict(),
            VARIANTS_JSON_VARIANT_DATA_KEY: {
                vhash: vdesc.to_dict() for vhash, vdesc in self.variants.items()
            },
        }
        if self.static_properties:
            data[VARIANT_INFO_STATIC_PROPERTIES_KEY] = self.static_properties
''', '''        variants = {}
        for label, vdesc in self.variants.items():
            variants[label] = vdesc.to_dict()
        data = {}
        if self.static_properties:
            data[VARIANT_INFO_STATIC_PROPERTIES_KEY] = self.static_properties
        data[VARIANT_INFO_PROVIDER_DATA_KEY] = self.providers_dict()
        data[VARIANT_INFO_DEFAULT_PRIO_KEY] = dict(self._priorities_to_json())
        data[VARIANTS_JSON_SCHEMA_KEY] = VARIANTS_JSON_SCHEMA_URL
        data[VARIANTS_JSON_VARIANT_DATA_KEY] = variants
'''))
edit("json-merge-helper", VJ, ('''    def merge(self, variant_dist_info: Self) -> None:
        """Merge info from another wheel (VariantsJson instance)"""

        # Verify consistency of default priorities and static properties
        for attribute in (
            "namespace_priorities",
            "feature_priorities",
            "property_priorities",
            "static_properties",
        ):
            new_value = getattr(variant_dist_info, attribute)
            old_value = getattr(self, attribute)
            if old_value != new_value:
                raise ValidationError(
                    f"Inconsistency in {attribute!r} when merging variants. "
                    f"Expected: {old_value!r}, found {new_value!r}"
                )
''', '''    def _check_same(self, other, attribute):
        new_value = getattr(other, attribute)
        old_value = getattr(self, attribute)
        if old_value != new_value:
            raise ValidationError(
                f"Inconsistency in {attribute!r} when merging variants. "
                f"Expected: {old_value!r}, found {new_value!r}"
            )

    def merge(self, variant_dist_info: Self) -> None:
        """Merge info from another wheel (VariantsJson instance)"""

        self._check_same(variant_dist_info, "namespace_priorities")
        self._check_same(variant_dist_info, "feature_priorities")
        self._check_same(variant_dist_info, "property_priorities")
        self._check_same(variant_dist_info, "static_properties")
'''))
edit("json-merge-loop", VJ, ('''            if (old_provider_info := self.providers.get(namespace)) is None:
                # If provider not yet specified, just copy it
                self.providers[namespace] = provider_info

            else:
                # Otherwise, merge requirements and verify consistency
                for req_str''', '''            if namespace not in self.providers:
                self.providers[namespace] = provider_info
            else:
                old_provider_info = self.providers[namespace]
                for req_str'''), ('''            if self.variants.get(label, vdesc) != vdesc:
''', '''            if label in self.variants and self.variants[label] != vdesc:
'''), ('''        self.variants.update(variant_dist_info.variants)
''', '''        for label, vdesc in variant_dist_info.variants.items():
            self.variants[label] = vdesc
'''))
edit("json-process-null", VJ, ('''                    if vdesc.is_null_variant() and variant_label != NULL_VARIANT_LABEL:
                        raise ValidationError(
                            f"Null variant must use {NULL_VARIANT_LABEL!r} label"
                        )
                    if (
                        not vdesc.is_null_variant()
                        and variant_label == NULL_VARIANT_LABEL
                    ):
                        raise ValidationError(
                            f"{NULL_VARIANT_LABEL!r} label can only be used for "
                            "the null variant"
                        )
''', '''                    is_null_label = variant_label == NULL_VARIANT_LABEL
                    if vdesc.is_null_variant() != is_null_label:
                        raise ValidationError("null label for the null variant only")
'''))
edit("json-process-comp", VJ, ('''            variant_labels = list(variants.keys())
            self.variants = {}

            for variant_label in variant_labels:
''', '''            self.variants = {}

            for variant_label in variants:
'''))
edit("json-aot-loop", VJ, ('''        return {
            namespace
            for namespace, provider_info in self.providers.items()
            if not provider_info.install_time
        }
''', '''        namespaces = set()
        for namespace in self.providers:
            if not self.providers[namespace].install_time:
                namespaces.add(namespace)
        return namespaces
'''))
# ---------------------------------------------------------------- variant_info
edit("info-helpers", VI, ('''    def _process_common(self, validator: KeyTrackingValidator) -> None:
''', '''    @staticmethod
    def _read_properties(validator, namespaced):
        result = {}
        validator.list_matches_re(VALIDATION_NAMESPACE_REGEX)
        for namespace in namespaced:
            with validator.get(
                namespace, dict[VariantFeatureName, list[VariantFeatureValue]]
            ) as feature_dict:
                validator.list_matches_re(VALIDATION_FEATURE_NAME_REGEX)
                for feature_name in feature_dict:
                    with validator.get(
                        feature_name, list[VariantFeatureValue]
                    ) as value_priorities:
                        validator.list_matches_re(VALIDATION_VALUE_REGEX)
                        result.setdefault(namespace, {})[feature_name] = (
                            value_priorities
                        )
        return result

    def _process_common(self, validator: KeyTrackingValidator) -> None:
'''), ('''                validator.list_matches_re(VALIDATION_NAMESPACE_REGEX)
                self.property_priorities = {}
                for namespace in property_priorities_dict:
                    with validator.get(
                        namespace, dict[VariantFeatureName, list[VariantFeatureValue]]
                    ) as feature_dict:
                        validator.list_matches_re(VALIDATION_FEATURE_NAME_REGEX)
                        for feature_name in feature_dict:
                            with validator.get(
                                feature_name, list[VariantFeatureValue]
                            ) as value_priorities:
                                validator.list_matches_re(VALIDATION_VALUE_REGEX)
                                self.property_priorities.setdefault(namespace, {})[
                                    feature_name
                                ] = value_priorities
''', '''                self.property_priorities = self._read_properties(
                    validator, property_priorities_dict
                )
'''))
edit("info-split", VI, ('''    def _process_common(self, validator: KeyTrackingValidator) -> None:
        with validator''', '''    def _process_common(self, validator: KeyTrackingValidator) -> None:
        self._process_priorities(validator)
        self._process_rest(validator)

    def _process_priorities(self, validator):
        with validator'''), ('''        with validator.get(
            VARIANT_INFO_PROVIDER_DATA_KEY, dict[str, Any], {}
''', '''    def _process_rest(self, validator):
        with validator.get(
            VARIANT_INFO_PROVIDER_DATA_KEY, dict[str, Any], {}
'''))
edit("info-loop-keys", VI, ('''            namespaces = list(providers.keys())
            self.providers = {}
            for namespace in namespaces:
''', '''            self.providers = {}
            for namespace in providers:
'''), ('''        all_providers = set(self.providers.keys())
''', '''        all_providers = set(self.providers)
'''), ('''        if set(self.namespace_priorities) != all_providers:
''', '''        unknown = set(self.namespace_priorities) ^ all_providers
        if unknown:
'''))
edit("info-order", VI, ('''                    with validator.get(
                        VARIANT_INFO_PROVIDER_REQUIRES_KEY, list[str], []
                    ) as provider_requires:
                        validator.list_matches_re(VALIDATION_PROVIDER_REQUIRES_REGEX)
                    with validator.get(
                        VARIANT_INFO_PROVIDER_OPTIONAL_KEY, bool, False
                    ) as provider_optional:
                        pass
''', '''                    with validator.get(
                        VARIANT_INFO_PROVIDER_OPTIONAL_KEY, bool, False
                    ) as provider_optional:
                        pass
                    with validator.get(
                        VARIANT_INFO_PROVIDER_REQUIRES_KEY, list[str], []
                    ) as provider_requires:
                        validator.list_matches_re(VALIDATION_PROVIDER_REQUIRES_REGEX)
'''))
edit("info-missing-prios", VI, ('''                        feature_prios = set(self.feature_priorities.get(namespace, []))
                        missing_feature_prios = set(feature_dict.keys()) - feature_prios
                        if missing_feature_prios:
''', '''                        feature_prios = self.feature_priorities.get(namespace, [])
                        missing_feature_prios = [
                            name for name in feature_dict if name not in feature_prios
                        ]
                        if missing_feature_prios:
'''))
edit("info-copy-helper", VI, ('''    def copy_as_kwargs(self) -> dict[str, Any]:
''', '''    @staticmethod
    def _copy_nested(nested):
        return {
            namespace: {feature: list(values) for feature, values in features.items()}
            for namespace, features in nested.items()
        }

    def copy_as_kwargs(self) -> dict[str, Any]:
'''), ('''            "property_priorities": {
                namespace: {
                    feature: list(property_priorities)
                    for feature, property_priorities in feature_dict.items()
                }
                for namespace, feature_dict in self.property_priorities.items()
            },
''', '''            "property_priorities": self._copy_nested(self.property_priorities),
'''), ('''            "static_properties": {
                namespace: {
                    feature: list(values) for feature, values in feature_dict.items()
                }
                for namespace, feature_dict in self.static_properties.items()
            },
''', '''            "static_properties": self._copy_nested(self.static_properties),
'''))
edit("info-copy-deepcopy", VI, ('''            "property_priorities": {
                namespace: {
                    feature: list(property_priorities)
                    for feature, property_priorities in feature_dict.items()
                }
                for namespace, feature_dict in self.property_priorities.items()
            },
''', '''            "property_priorities": copy.deepcopy(self.property_priorities),
'''), ("from dataclasses import", "import copy\nfrom dataclasses import"))
edit("info-requires-comp", VI, ('''        requirements = set()
        for namespace in namespaces:
            provider = self.providers[namespace]
            if not provider.install_time and not include_aot_plugins:
                continue
            requirements.update(provider.requires)
        return requirements
''', '''        return {
            requirement
            for namespace in namespaces
            for requirement in self.providers[namespace].requires
            if self.providers[namespace].install_time or include_aot_plugins
        }
'''))
edit("info-objref", VI, ('''        if self.plugin_api is not None:
            return self.plugin_api
        # TODO: how far should we normalize it?
        return Requirement(self.requires[0]).name.replace("-", "_")
''', '''        if self.plugin_api is None:
            requirement = Requirement(self.requires[0])
            return requirement.name.replace("-", "_")
        return self.plugin_api
'''))
edit("dist-len", DI, ('''        self._process(json.loads(dist_info_file))

        if len(self.variants) != 1:
''', '''        data = json.loads(dist_info_file)
        self._process(data)

        count = len(self.variants)
        if count < 1 or count > 1:
'''), ('''        if expected_label not in (None, self.variant_label):
''', '''        if expected_label is not None and expected_label != self.variant_label:
'''))
edit("dist-label", DI, ('''        return next(iter(self.variants.keys()))
''', '''        (label,) = self.variants
        return label
'''), ('''        return next(iter(self.variants.values()))
''', '''        return list(self.variants.values())[0]
'''))
edit("pyproject-aot", PP, ('''            if not provider_info.install_time and not provider_info.requires
''', '''            if not (provider_info.install_time or provider_info.requires)
'''))
# ---------------------------------------------------------------- provider / config
edit("provider-props", PR, ('''        for feat_cfg in self.configs:
            for value in feat_cfg.values:
                yield VariantProperty(self.namespace, feat_cfg.name, value)
''', '''        for feat_cfg in self.configs:
            yield from (
                VariantProperty(
                    namespace=self.namespace, feature=feat_cfg.name, value=value
                )
                for value in feat_cfg.values
            )
'''))
edit("provider-validators", PR, ('''@dataclass(frozen=True)
class VariantFeatureConfig(BaseModel):
    name: VariantFeatureName = field(
        metadata={
            "validator": lambda val: validate_and(
                [
                    lambda v: validate_type(v, VariantFeatureName),
                    lambda v: validate_matches_re(v, VALIDATION_FEATURE_NAME_REGEX),  # pyright: ignore[reportArgumentType]
                ],
                value=val,
            )
        }
    )
''', '''def _validate_name(val):
    validate_type(val, VariantFeatureName)
    validate_matches_re(val, VALIDATION_FEATURE_NAME_REGEX)


@dataclass(frozen=True)
class VariantFeatureConfig(BaseModel):
    name: VariantFeatureName = field(metadata={"validator": _validate_name})
'''))
edit("config-first", CF, ('''        config_files = get_configuration_files()
        for config_name in ConfigEnvironments:
            if (cfg_f := config_files[config_name]).exists():
                return cfg_f

        raise FileNotFoundError("No configuration file found.")
''', '''        config_files = get_configuration_files()
        existing = [
            config_files[name]
            for name in ConfigEnvironments
            if config_files[name].exists()
        ]
        if not existing:
            raise FileNotFoundError("No configuration file found.")
        return existing[0]
'''))
edit("config-get", CF, ('''        try:
            return cls.get_config_from_file(cls.get_config_file())
        except FileNotFoundError:
            # No user-configuration file found
            return ConfigurationModel.default()
''', '''        try:
            config_file = cls.get_config_file()
            config = cls.get_config_from_file(config_file)
        except FileNotFoundError:
            config = ConfigurationModel.default()
        return config
'''))
edit("config-wrapper", CF, ('''        if cls._config is None:
            cls._config = cls.get_config()

        return func(cls, *args, **kwargs)
''', '''        if cls._config is not None:
            return func(cls, *args, **kwargs)
        cls._config = cls.get_config()
        return func(cls, *args, **kwargs)
'''))
# ---------------------------------------------------------------- validators
edit("valid-loop", VB, ('''    if (match := re.fullmatch(pattern, value)) is None:
        raise ValidationError(
            f"{message_prefix + ': ' if message_prefix is not None else ''}"
            f"Value `{value}` must match regex {pattern}"
        )
    return match
''', '''    match = re.compile(pattern).fullmatch(value)
    if match:
        return match
    prefix = "" if message_prefix is None else f"{message_prefix}: "
    raise ValidationError(f"{prefix}Value `{value}` must match regex {pattern}")
'''))
edit("valid-unique", VB, ('''    seen = set()

    for value in values:
        _value = value

        if keys is not None:
            _value = tuple([getattr(value, key) for key in keys])
            if len(_value) == 1:
                _value = _value[0]

        if _value in seen:
            raise ValidationError(f"Duplicate value found: `{_value}` in list.")

        seen.add(_value)
''', '''    if keys is None:
        candidates = list(values)
    else:
        candidates = [tuple(getattr(v, key) for key in keys) for v in values]

    seen = set()
    for candidate in candidates:
        if candidate in seen:
            raise ValidationError(f"Duplicate value found: `{candidate}` in list.")
        seen.add(candidate)
'''))
edit("valid-and", VC, ('''    try:
        for validator in validators:
            validator(value)

    except ValidationError:
''', '''    try:
        for index in range(len(validators)):
            validator = validators[index]
            validator(value)

    except ValidationError:
'''))
edit("kt-helper", KT, ('''        # add to list of expected keys of current dict
        self._expected_keys[-1].add(key)

        # push the value to the stack
        self.keys.append(key)
        self._data.append(self._data[-1].get(key, default))

        if self._data[-1] is self.RequiredKey:
            raise ValidationError(f"{self.key}: required key not found")

        self._expected_keys.append(set())
        # validate only non-default type -- this makes optional keys easier
        # (since type validator can't handle optional types)
        if self._data[-1] is not default:
            self.validate(self._data[-1], expected_type)

        # return the value
        yield self._data[-1]
''', '''        self._expected_keys[-1].add(key)

        value = self._data[-1].get(key, default)
        self.keys.append(key)
        self._data.append(value)

        if value is self.RequiredKey:
            raise ValidationError(f"{self.key}: required key not found")

        self._expected_keys.append(set())
        if value is not default:
            self.validate(value, expected_type)

        yield value
'''))
edit("kt-unexpected", KT, ('''            unexpected_keys = last_data.keys() - expected_keys
            if unexpected_keys:
''', '''            unexpected_keys = {k for k in last_data if k not in expected_keys}
            if len(unexpected_keys) > 0:
'''))
FIND = '''                for name in zip_file.namelist():
                    components = name.split("/", 2)
                    if (
                        len(components) == 2
                        and components[0].endswith(".dist-info")
                        and components[1] == VARIANT_DIST_INFO_FILENAME
                    ):
                        variant_dist_info = VariantDistInfo(zip_file.read(name), vlabel)
                        break
                else:
                    logger.warning(
                        "%(wheel)s: no %(filename)s file found",
                        {"wheel": wheel, "filename": VARIANT_DIST_INFO_FILENAME},
                    )
                    continue
'''
edit("gi-find-helper", GI, ("def generate_index_json(", '''def _is_variant_file(name: str) -> bool:
    components = name.split("/", 2)
    return (
        len(components) == 2
        and components[0].endswith(".dist-info")
        and components[1] == VARIANT_DIST_INFO_FILENAME
    )


def generate_index_json('''), ('''                    components = name.split("/", 2)
                    if (
                        len(components) == 2
                        and components[0].endswith(".dist-info")
                        and components[1] == VARIANT_DIST_INFO_FILENAME
                    ):
''', '''                    if _is_variant_file(name):
'''))
edit("gi-find-first", GI, ("def generate_index_json(", '''def _find_variant_file(zip_file: zipfile.ZipFile) -> str | None:
    for name in zip_file.namelist():
        components = name.split("/", 2)
        if len(components) != 2:
            continue
        dist_info, filename = components
        if dist_info.endswith(".dist-info") and filename == VARIANT_DIST_INFO_FILENAME:
            return name
    return None


def generate_index_json('''), (FIND, '''                name = _find_variant_file(zip_file)
                if name is None:
                    logger.warning(
                        "%(wheel)s: no %(filename)s file found",
                        {"wheel": wheel, "filename": VARIANT_DIST_INFO_FILENAME},
                    )
                    continue
                variant_dist_info = VariantDistInfo(zip_file.read(name), vlabel)
'''))
edit("gi-in", GI, ('''        if (variants_json := output_files.get(namever)) is None:
            # Create a new JSON file from the initial wheel.
            output_files[namever] = variant_dist_info
        else:
            try:
                variants_json.merge(variant_dist_info)
''', '''        if namever not in output_files:
            # Create a new JSON file from the initial wheel.
            output_files[namever] = variant_dist_info
        else:
            try:
                output_files[namever].merge(variant_dist_info)
'''))
edit("gi-nested", GI, ('''        if (vlabel := wheel_info.group("variant_label")) is None:
''', '''        vlabel = wheel_info.group("variant_label")
        if vlabel is None:
'''), ('''    if not directory.exists():
        raise FileNotFoundError(f"Directory not found: `{directory}`")
    if not directory.is_dir():
        raise NotADirectoryError(f"Directory not found: `{directory}`")
''', '''    if not directory.is_dir():
        if not directory.exists():
            raise FileNotFoundError(f"Directory not found: `{directory}`")
        raise NotADirectoryError(f"Directory not found: `{directory}`")
'''))
edit("gi-write", GI, ('''    for namever, variants_json in output_files.items():
        path = directory / f"{namever}-variants.json"
        path.write_text(variants_json.to_str())
''', '''    for namever in output_files:
        (directory / (namever + "-variants.json")).write_text(
            output_files[namever].to_str()
        )
'''))
edit("gi-process-helper", GI, ("def generate_index_json(", '''def _add(output_files, namever, variant_dist_info, wheel, vlabel):
    if (variants_json := output_files.get(namever)) is None:
        # Create a new JSON file from the initial wheel.
        output_files[namever] = variant_dist_info
        return
    try:
        variants_json.merge(variant_dist_info)
    except ValidationError:
        logger.exception(
            "Failed to process wheel: `%(wheel)s` with variant label: " "`%(vlabel)s`",
            {"wheel": wheel.name, "vlabel": vlabel},
        )


def generate_index_json('''), ('''        if (variants_json := output_files.get(namever)) is None:
            # Create a new JSON file from the initial wheel.
            output_files[namever] = variant_dist_info
        else:
            try:
                variants_json.merge(variant_dist_info)
            except ValidationError:
                logger.exception(
                    "Failed to process wheel: `%(wheel)s` with variant label: "
                    "`%(vlabel)s`",
                    {"wheel": wheel.name, "vlabel": vlabel},
                )
''', '''        _add(output_files, namever, variant_dist_info, wheel, vlabel)
'''))
edit("mk-output-name", MK, ('''    output_filepath = (
        output_directory / f"{wheel_info.group('base_wheel_name')}-{variant_label}.whl"
    )
''', '''    base_name = wheel_info.group("base_wheel_name")
    output_filename = f"{base_name}-{variant_label}.whl"
    output_filepath = output_directory / output_filename
'''))
edit("mk-kept", MK, ('''            if is_dist_info and components[1] == VARIANT_DIST_INFO_FILENAME:
                # If a wheel dist-info file exists already, discard the existing
                # copy.
                continue

            with input_zip.open(file_info, "r") as input_file:
                if is_dist_info and components[1] == "RECORD":
''', '''            filename = components[1] if is_dist_info else None
            if filename == VARIANT_DIST_INFO_FILENAME:
                continue

            with input_zip.open(file_info, "r") as input_file:
                if filename == "RECORD":
'''))
edit("mk-record-helper", MK, ("def _make_variant(", '''def _record_line(path: str, data: str) -> bytes:
    digest = hashlib.sha256(data.encode("utf8")).digest()
    sha256 = base64.urlsafe_b64encode(digest).rstrip(b"=").decode()
    return f"{path},sha256={sha256},{len(data)}\\n".encode()


def _make_variant('''), ('''                        new_sha256 = base64.urlsafe_b64encode(
                            hashlib.sha256(dist_info_data.encode("utf8")).digest()
                        ).rstrip(b"=")
                        output_file.write(
                            (
                                f"{dist_info_path},"
                                f"sha256={new_sha256.decode()},"
                                f"{len(dist_info_data)}\\n"
                            ).encode()
                        )
''', '''                        output_file.write(_record_line(dist_info_path, dist_info_data))
'''))
edit("mk-record-order", MK, ('''                            new_line = line if line.endswith(b"\\n") else line + b"\\n"
                            rec_filename, _sha256, _size = line.rsplit(b",", 2)
                            # Skip existing hash for the discarded copy.
                            if rec_filename.decode("utf-8") == dist_info_path:
                                continue
                            output_file.write(new_line)
''', '''                            rec_filename, _sha256, _size = line.rsplit(b",", 2)
                            if rec_filename.decode("utf-8") != dist_info_path:
                                if not line.endswith(b"\\n"):
                                    line += b"\\n"
                                output_file.write(line)
'''))
edit("mk-env", MK, ('''                # make it really verbose to make mypy happy
                if installer is None:
                    env_factory = DefaultIsolatedEnv()
                elif installer == "pip":
                    env_factory = DefaultIsolatedEnv(installer="pip")
                elif installer == "uv":
                    env_factory = DefaultIsolatedEnv(installer="uv")
                else:
                    raise ValueError(f"unexpected installer={installer}")
            else:
                env_factory = nullcontext()
''', '''                if installer is None:
                    env_factory = DefaultIsolatedEnv()
                elif installer in ("pip", "uv"):
                    env_factory = DefaultIsolatedEnv(installer=installer)
                else:
                    raise ValueError(f"unexpected installer={installer}")
            else:
                env_factory = nullcontext()
'''))
edit("mk-python", MK, ('''                # Verify whether the variant properties are valid
                vdesc_valid = validate_variant(
                    vdesc,
                    variant_info=variant_info,
                    venv_python_executable=venv.python_executable
                    if venv is not None
                    else None,
                )
''', '''                python = venv.python_executable if venv is not None else None
                vdesc_valid = validate_variant(
                    vdesc, variant_info=variant_info, venv_python_executable=python
                )
'''), ('''                    variant_label=get_variant_label(vdesc, variant_label),
                    venv_python_executable=venv.python_executable
                    if venv is not None
                    else None,
''', '''                    variant_label=get_variant_label(vdesc, variant_label),
                    venv_python_executable=python,
'''))
edit("mk-else-first", MK, ('''    wheel_info = VALIDATION_WHEEL_NAME_REGEX.fullmatch(input_filepath.name)
    if wheel_info is None:
        raise ValueError(f"{input_filepath.name!r} is not a valid wheel filename.")
''', '''    if (
        wheel_info := VALIDATION_WHEEL_NAME_REGEX.fullmatch(input_filepath.name)
    ) is None:
        raise ValueError(f"{input_filepath.name!r} is not a valid wheel filename.")
'''))
edit("um-decode", UM, ('''                    variant_dist_info_path = (
                        f"{components[0]}/{VARIANT_DIST_INFO_FILENAME}"
                    ).encode()
                    for line in input_file:
                        rec_filename, _sha256, _size = line.rsplit(b",", 2)
                        if rec_filename != variant_dist_info_path:
                            output_file.write(line)
''', '''                    dropped = f"{components[0]}/{VARIANT_DIST_INFO_FILENAME}".encode()
                    for line in input_file:
                        if line.rsplit(b",", 2)[0] == dropped:
                            continue
                        output_file.write(line)
'''), ('''    wheel_info = VALIDATION_WHEEL_NAME_REGEX.fullmatch(input_filepath.name)

    if (
''', '''    if (
'''))
edit("um-helper", UM, ("def _unmake_variant(", '''def _copy_record(input_file, output_file, skipped: bytes) -> None:
    for line in input_file:
        rec_filename, _sha256, _size = line.rsplit(b",", 2)
        if rec_filename != skipped:
            output_file.write(line)


def _unmake_variant('''), ('''                    for line in input_file:
                        rec_filename, _sha256, _size = line.rsplit(b",", 2)
                        if rec_filename != variant_dist_info_path:
                            output_file.write(line)
''', '''                    _copy_record(input_file, output_file, variant_dist_info_path)
'''))
edit("um-nested", UM, ('''            components = file_info.filename.split("/", 2)
            is_dist_info = len(components) == 2 and components[0].endswith(".dist-info")

            if is_dist_info and components[1] == VARIANT_DIST_INFO_FILENAME:
                # This is the variant.json file, we skip it.
                continue
''', '''            components = file_info.filename.split("/", 2)
            is_dist_info = False
            if len(components) == 2:
                is_dist_info = components[0].endswith(".dist-info")

            if is_dist_info:
                if components[1] == VARIANT_DIST_INFO_FILENAME:
                    continue
'''))
edit("aw-ternary", AW, ('''    if not wheel_file.exists() or not wheel_file.is_file():
''', '''    if not wheel_file.is_file():
'''), ('''    if variant_json is None:
        variant_json = variant_dist_info
    else:
        variant_json.merge(variant_dist_info)

    namever = wheel_info.group("namever")

    output_json_file = output_directory / f"{namever}-variants.json"
''', '''    if variant_json is not None:
        variant_json.merge(variant_dist_info)
    else:
        variant_json = variant_dist_info

    output_json_file = (
        output_directory / f"{wheel_info.group('namever')}-variants.json"
    )
'''))
edit("aw-loads", AW, ('''        with input_json_file.open(mode="r") as f:
            variant_json = VariantsJson(json.load(f))
''', '''        variant_json = VariantsJson(json.loads(input_json_file.read_text()))
'''))
edit("an-lines", AN, ('''    for vprop in vdesc.properties:
        result_str += f"\\n{vprop.to_str()}"
    result_str += f"\\n{'#' * 80}\\n"
    return result_str
''', '''    lines = [result_str]
    lines.extend(vprop.to_str() for vprop in vdesc.properties)
    lines.append("#" * 80)
    return "\\n".join(lines) + "\\n"
'''))
edit("an-next", AN, ('''        for name in zip_file.namelist():
            components = name.split("/", 2)
            if (
                len(components) == 2
                and components[0].endswith(".dist-info")
                and components[1] == VARIANT_DIST_INFO_FILENAME
            ):
                variant_dist_info = VariantDistInfo(zip_file.read(name), variant_label)
                break
        else:
            raise ValueError(f"Invalid wheel -- no {VARIANT_DIST_INFO_FILENAME} found")
''', '''        found = None
        for name in zip_file.namelist():
            components = name.split("/", 2)
            if (
                len(components) == 2
                and components[0].endswith(".dist-info")
                and components[1] == VARIANT_DIST_INFO_FILENAME
            ):
                found = name
                break
        if found is None:
            raise ValueError(f"Invalid wheel -- no {VARIANT_DIST_INFO_FILENAME} found")
        variant_dist_info = VariantDistInfo(zip_file.read(found), variant_label)
'''))
edit("up-helpers", UP, ("def update_pyproject_toml(", '''def _delete(namespace, namespace_prio_key, provider_table) -> None:
    while namespace in namespace_prio_key:
        namespace_prio_key.remove(namespace)
    if namespace in provider_table:
        del provider_table[namespace]


def update_pyproject_toml('''), ('''            while namespace in namespace_prio_key:
                namespace_prio_key.remove(namespace)
            if namespace in provider_table:
                del provider_table[namespace]
''', '''            _delete(namespace, namespace_prio_key, provider_table)
'''))
edit("up-requires", UP, ('''            default_requires = []
            if (dist := loader.plugin_provider_packages.get(plugin_api)) is not None:
                default_requires.append(f"{dist.name} >={dist.version}")
            namespace_table.setdefault(
                VARIANT_INFO_PROVIDER_REQUIRES_KEY, default_requires
            )
''', '''            dist = loader.plugin_provider_packages.get(plugin_api)
            default_requires = (
                [f"{dist.name} >={dist.version}"] if dist is not None else []
            )
            if VARIANT_INFO_PROVIDER_REQUIRES_KEY not in namespace_table:
                namespace_table[VARIANT_INFO_PROVIDER_REQUIRES_KEY] = default_requires
'''))
edit("up-pop", UP, ('''            if namespace in provider_table:
                del provider_table[namespace]
''', '''            provider_table.pop(namespace, None)
'''))
edit("gc-continue", GC, ('''        if parsed_args.namespace not in (provider_cfg.namespace, None):
            continue
''', '''        if (
            parsed_args.namespace is not None
            and parsed_args.namespace != provider_cfg.namespace
        ):
            continue
'''), ('''        feature_list = output[provider_cfg.namespace] = []
        for feature in provider_cfg.configs:
            if parsed_args.feature not in (feature.name, None):
                continue

            feature_list.append(dataclasses.asdict(feature))
''', '''        output[provider_cfg.namespace] = [
            dataclasses.asdict(feature)
            for feature in provider_cfg.configs
            if parsed_args.feature is None or parsed_args.feature == feature.name
        ]
'''))
edit("sh-helper", SH, ('''    for namespace, feature_priorities in configuration.feature_priorities.items():
        doc.add(tomlkit.nl())
        doc[tomlkit.key(["feature_priorities", namespace])] = multiline_array(
            feature_priorities
        )
''', '''    for namespace in configuration.feature_priorities:
        doc.add(tomlkit.nl())
        key = tomlkit.key(["feature_priorities", namespace])
        doc[key] = multiline_array(configuration.feature_priorities[namespace])
'''))
edit("pl-key", PL, ('''        with suppress(KeyError):
            return VARIANT_PROVIDER_CACHE_TABLE[cache_key]

        result =''', '''        if cache_key in VARIANT_PROVIDER_CACHE_TABLE:
            return VARIANT_PROVIDER_CACHE_TABLE[cache_key]

        result ='''))
edit("pl-try", PL, ('''        with suppress(KeyError):
            return VARIANT_PROVIDER_CACHE_TABLE[cache_key]

        result = self._run_call_subprocess(
            plugin_apis=_plugin_apis,
            commands=_commands,
            args=_args,
        )
        VARIANT_PROVIDER_CACHE_TABLE[cache_key] = result
        return result
''', '''        try:
            return VARIANT_PROVIDER_CACHE_TABLE[cache_key]
        except KeyError:
            pass

        VARIANT_PROVIDER_CACHE_TABLE[cache_key] = self._run_call_subprocess(
            _plugin_apis, _commands, _args
        )
        return VARIANT_PROVIDER_CACHE_TABLE[cache_key]
'''))
edit("pl-copy-helper", PL, ('''    @abstractmethod
    def _load_all_plugins(self) -> None: ...

    def _load_all_plugins_from_tuple''', '''    @staticmethod
    def _resource(package: str, name: str) -> bytes:
        return (importlib.resources.files(package) / name).read_bytes()

    @abstractmethod
    def _load_all_plugins(self) -> None: ...

    def _load_all_plugins_from_tuple'''), ('''            (Path(temp_dir) / "_variantlib_protocols.py").write_bytes(
                (importlib.resources.files("variantlib") / "protocols.py").read_bytes()
            )
''', '''            (Path(temp_dir) / "_variantlib_protocols.py").write_bytes(
                self._resource("variantlib", "protocols.py")
            )
'''))
edit("pl-cmd", PL, ('''            cmd_args = list(args)
            for plugin_api in plugin_apis:
                cmd_args += ["--plugin-api", plugin_api]

            process = subprocess.run(  # noqa: S603
                [self._python_executable, script, *cmd_args],
''', '''            cmd = [self._python_executable, script, *args]
            for plugin_api in plugin_apis:
                cmd.append("--plugin-api")
                cmd.append(plugin_api)

            process = subprocess.run(  # noqa: S603
                cmd,
'''))
edit("pl-namespaces", PL, ('''            if namespace in namespace_map.values():
''', '''            if any(x == namespace for x in namespace_map.values()):
'''), ('''            # normalize it before passing to the subprocess
            normalized_plugin_apis.append(
                f"{import_name}:{attr_path}" if attr_path else import_name
            )
''', '''            normalized = import_name
            if attr_path:
                normalized += ":" + attr_path
            normalized_plugin_apis.append(normalized)
'''))
edit("pl-enabled", PL, ('''        if self._filter_plugins is not None and namespace not in self._filter_plugins:
            return False

        if provider_data''', '''        if self._filter_plugins is not None:
            if namespace not in self._filter_plugins:
                return False

        if provider_data'''), ('''        if (marker := provider_data.enable_if) is not None:
            if not Marker(marker).evaluate(self._environment):
''', '''        if provider_data.enable_if is not None:
            marker = Marker(provider_data.enable_if)
            if not marker.evaluate(self._environment):
'''))
edit("pl-static", PL, ('''        # for install-time providers, we always query the plugin
        if provider_data.install_time:
            return False
        # when there is no plugin, we always use metadata
        if not provider_data.requires:
            return True
        # otherwise, query the plugin if build-time querying is enabled
        return not self._include_aot_plugins
''', '''        return not provider_data.install_time and (
            not provider_data.requires or not self._include_aot_plugins
        )
'''))
edit("pl-configs", PL, ('''            if not plugin_configs:
                if require_non_empty:
                    raise PluginError(
                        f"Provider {namespace}, {method}() returned no valid configs!"
                    )
                continue

            provider_cfgs[namespace] = ProviderConfig(
                namespace,
                configs=[
                    VariantFeatureConfig(**vfeat_cfg) for vfeat_cfg in plugin_configs
                ],
            )
''', '''            if plugin_configs:
                feature_configs = [
                    VariantFeatureConfig(**vfeat_cfg) for vfeat_cfg in plugin_configs
                ]
                provider_cfgs[namespace] = ProviderConfig(
                    namespace=namespace, configs=feature_configs
                )
            elif require_non_empty:
                raise PluginError(
                    f"Provider {namespace}, {method}() returned no valid configs!"
                )
'''))
edit("pl-optional", PL, ('''        # if enable_optional_plugins is a bool, it controls all plugins
        if self._enable_optional_plugins in (False, True):
            assert isinstance(self._enable_optional_plugins, bool)
            return self._enable_optional_plugins
''', '''        if isinstance(self._enable_optional_plugins, bool):
            return self._enable_optional_plugins
'''))
edit("sp-helper", SP, ('''        elif command == "get_all_configs":
            assert not command_args
            retval[command] = {  # pyright: ignore[reportArgumentType]
                plugin_api: process_configs(
                    plugin.get_all_configs(),
                    plugin,
                    command,
                )
                for plugin_api, plugin in plugins.items()
            }
        elif command == "get_supported_configs":
            assert not command_args
            retval[command] = {  # pyright: ignore[reportArgumentType]
                plugin_api: process_configs(
                    plugin.get_supported_configs(),
                    plugin,
                    command,
                )
                for plugin_api, plugin in plugins.items()
            }
''', '''        elif command in ("get_all_configs", "get_supported_configs"):
            assert not command_args
            retval[command] = {  # pyright: ignore[reportArgumentType]
                plugin_api: process_configs(getattr(plugin, command)(), plugin, command)
                for plugin_api, plugin in plugins.items()
            }
'''))
edit("sp-fixed", SP, ('''        non_fixed_plugins = {
            plugin.namespace
            for plugin in plugins.values()
            if not getattr(plugin, "is_aot_plugin", False)
        }
''', '''        non_fixed_plugins = set()
        for plugin in plugins.values():
            if not getattr(plugin, "is_aot_plugin", False):
                non_fixed_plugins.add(plugin.namespace)
'''))
edit("sp-load", SP, ('''            module = importlib.import_module(import_name)
            attr_chain = attr_path.split(".") if attr_path else []
            plugin_instance = reduce(getattr, attr_chain, module)
''', '''            plugin_instance = importlib.import_module(import_name)
            if attr_path:
                for attr in attr_path.split("."):
                    plugin_instance = getattr(plugin_instance, attr)
'''))
edit("sp-missing", SP, ('''        if missing_attributes := required_attributes.difference(dir(plugin_instance)):
''', '''        missing_attributes = required_attributes - set(dir(plugin_instance))
        if missing_attributes:
'''))
edit("cf-enum-loop", CF, ('''        for config_name in ConfigEnvironments:
            if (cfg_f := config_files[config_name]).exists():
                return cfg_f
''', '''        for config_name in ConfigEnvironments:
            cfg_f = config_files[config_name]
            if not cfg_f.exists():
                continue
            return cfg_f
'''))
edit("cf-load", CF, ('''        with config_file.open("rb") as f:
            try:
                config = tomllib.load(f)
            except tomllib.TOMLDecodeError as e:
                raise ConfigurationError from e
''', '''        try:
            with config_file.open("rb") as f:
                config = tomllib.load(f)
        except tomllib.TOMLDecodeError as e:
            raise ConfigurationError from e
'''))
edit("cf-getfile", CF, ('''        try:
            return cls.get_config_from_file(cls.get_config_file())
        except FileNotFoundError:
            # No user-configuration file found
            return ConfigurationModel.default()
''', '''        try:
            config_file = cls.get_config_file()
            config = cls.get_config_from_file(config_file)
        except FileNotFoundError:
            config = ConfigurationModel.default()
        return config
'''))
edit("kt-stack", KT, ('''        expected_keys = self._expected_keys.pop()
        last_data = self._data.pop()
        # if it was a dict, verify that we didn't get any unwelcome keys
        if isinstance(last_data, dict) and not ignore_subkeys:
            unexpected_keys = last_data.keys() - expected_keys
            if unexpected_keys:
                raise ValidationError(
                    f"{self.key}: unexpected subkeys: {unexpected_keys}; "
                    f"expected only: {expected_keys}"
                )
        self.keys.pop()
''', '''        last_data = self._data.pop()
        expected_keys = self._expected_keys.pop()
        if not ignore_subkeys and isinstance(last_data, dict):
            for k in last_data:
                if k not in expected_keys:
                    raise ValidationError(f"{self.key}: unexpected subkey: {k}")
        self.keys.pop()
'''))
edit("kt-required", KT, ('''        self._data.append(self._data[-1].get(key, default))

        if self._data[-1] is self.RequiredKey:
            raise ValidationError(f"{self.key}: required key not found")
''', '''        if default is self.RequiredKey and key not in self._data[-1]:
            raise ValidationError(f"{self.key}: required key not found")
        self._data.append(self._data[-1].get(key, default))
'''))
edit("kt-matches", KT, ('''        return validate_matches_re(self._data[-1], pattern, self.key)
''', '''        current = self._data[-1]
        return validate_matches_re(current, pattern, self.key)
'''))
edit("main-split", MAIN, ('''    main_fn = registered_commands[namespace.command].load()
    main_fn(namespace.args)
''', '''    command = registered_commands[namespace.command]
    command.load()(namespace.args)
'''))
edit("gh-inline", GH, ('''    vdesc = VariantDescription(properties=properties)

    sys.stdout.write(f"{vdesc.hexdigest}\\n")
''', '''    hexdigest = VariantDescription(properties).hexdigest
    sys.stdout.write(hexdigest + "\\n")
'''))
edit("ut-ns", U, ('''        if not result:
            result.extend(iter_list)
        else:
            result.extend(item for item in iter_list if item not in result)
    return result
''', '''        if not result:
            result = list(iter_list)
            continue
        known = list(result)
        result += [item for item in iter_list if item not in known]
    return result
'''))
edit("ut-prop-key", U, ('''        for key, subkeys in iter_dict.items():
            for subkey, values in subkeys.items():
                if not (ret_value := result.setdefault(key, {}).setdefault(subkey, [])):
''', '''        for key, subkeys in iter_dict.items():
            for subkey in subkeys:
                values = subkeys[subkey]
                per_key = result.setdefault(key, {})
                if not (ret_value := per_key.setdefault(subkey, [])):
'''))
edit("pp-read", PP, ('''        with path.open("rb") as f:
            return cls(tomllib.load(f))
''', '''        return cls(tomllib.loads(path.read_text(encoding="utf-8")))
'''))
edit("pp-aot-loop", PP, ('''        return {
            namespace
            for namespace, provider_info in self.providers.items()
            if not provider_info.install_time and not provider_info.requires
        }
''', '''        result = set()
        for namespace, provider_info in self.providers.items():
            if provider_info.install_time or provider_info.requires:
                continue
            result.add(namespace)
        return result
'''))
