//! The published terms of every vocabulary rdftk_names offers, written down by hand from the
//! vocabularies themselves (checked term by term), not taken from the crate at run time.

use crate::Entry;

macro_rules! vocabulary {
    ($out:ident, $($m:ident)::+, $prefix:literal, $ns:literal, { $($f:ident $s:ident $q:ident $name:literal),* $(,)? }) => {
        $out.push({
            use rdftk_names::$($m)::+ as v;
            Entry {
                module: stringify!($($m)::+),
                prefix: $prefix,
                namespace: $ns,
                default_prefix: || v::default_prefix(),
                ns: || v::namespace(),
                ns_str: || v::namespace_str(),
                terms: vec![$((stringify!($f), $name, || v::$f(), || v::$s(), || v::$q())),*],
            }
        });
    };
}

pub fn all() -> Vec<Entry> {
    let mut out = vec![];
    vocabulary!(out, dc::dcam, "dcam", "http://purl.org/dc/dcam/", {
        vocabulary_encoding_scheme vocabulary_encoding_scheme_str vocabulary_encoding_scheme_qname "VocabularyEncodingScheme",
        domain_includes domain_includes_str domain_includes_qname "domainIncludes",
        member_of member_of_str member_of_qname "memberOf",
        range_includes range_includes_str range_includes_qname "rangeIncludes",
    });
    vocabulary!(out, dc::dcmi_type, "dctype", "http://purl.org/dc/dcmitype/", {
        collection collection_str collection_qname "Collection",
        dataset dataset_str dataset_qname "Dataset",
        event event_str event_qname "Event",
        image image_str image_qname "Image",
        interactive_resource interactive_resource_str interactive_resource_qname "InteractiveResource",
        moving_image moving_image_str moving_image_qname "MovingImage",
        physical_object physical_object_str physical_object_qname "PhysicalObject",
        service service_str service_qname "Service",
        software software_str software_qname "Software",
        sound sound_str sound_qname "Sound",
        still_image still_image_str still_image_qname "StillImage",
        text text_str text_qname "Text",
    });
    vocabulary!(out, dc::elements, "dc", "http://purl.org/dc/elements/1.1/", {
        contributor contributor_str contributor_qname "contributor",
        coverage coverage_str coverage_qname "coverage",
        creator creator_str creator_qname "creator",
        date date_str date_qname "date",
        description description_str description_qname "description",
        format format_str format_qname "format",
        identifier identifier_str identifier_qname "identifier",
        language language_str language_qname "language",
        publisher publisher_str publisher_qname "publisher",
        relation relation_str relation_qname "relation",
        rights rights_str rights_qname "rights",
        source source_str source_qname "source",
        subject subject_str subject_qname "subject",
        title title_str title_qname "title",
        a_type a_type_str a_type_qname "type",
    });
    vocabulary!(out, dc::terms, "dcterms", "http://purl.org/dc/terms/", {
        agent agent_str agent_qname "Agent",
        agent_class agent_class_str agent_class_qname "AgentClass",
        bibliographic_resource bibliographic_resource_str bibliographic_resource_qname "BibliographicResource",
        a_box a_box_str a_box_qname "Box",
        dcmi_type dcmi_type_str dcmi_type_qname "DCMIType",
        ddc_classify ddc_classify_str ddc_classify_qname "DDC",
        file_format file_format_str file_format_qname "FileFormat",
        frequency frequency_str frequency_qname "Frequency",
        imt_classify imt_classify_str imt_classify_qname "IMT",
        iso_3166 iso_3166_str iso_3166_qname "ISO3166",
        iso_639_2 iso_639_2_str iso_639_2_qname "ISO639-2",
        iso_639_3 iso_639_3_str iso_639_3_qname "ISO639-3",
        jurisdiction jurisdiction_str jurisdiction_qname "Jurisdiction",
        lcc_classify lcc_classify_str lcc_classify_qname "LCC",
        lcsh_classify lcsh_classify_str lcsh_classify_qname "LCSH",
        license_document license_document_str license_document_qname "LicenseDocument",
        linguistic_system linguistic_system_str linguistic_system_qname "LinguisticSystem",
        location location_str location_qname "Location",
        location_period_or_jurisdiction location_period_or_jurisdiction_str location_period_or_jurisdiction_qname "LocationPeriodOrJurisdiction",
        mesh_classify mesh_classify_str mesh_classify_qname "MESH",
        media_type media_type_str media_type_qname "MediaType",
        media_type_or_extent media_type_or_extent_str media_type_or_extent_qname "MediaTypeOrExtent",
        method_of_accrual method_of_accrual_str method_of_accrual_qname "MethodOfAccrual",
        method_of_instruction method_of_instruction_str method_of_instruction_qname "MethodOfInstruction",
        nlm_classify nlm_classify_str nlm_classify_qname "NLM",
        period period_str period_qname "Period",
        period_of_time period_of_time_str period_of_time_qname "PeriodOfTime",
        physical_medium physical_medium_str physical_medium_qname "PhysicalMedium",
        physical_resource physical_resource_str physical_resource_qname "PhysicalResource",
        point point_str point_qname "Point",
        policy policy_str policy_qname "Policy",
        rfc_1766 rfc_1766_str rfc_1766_qname "RFC1766",
        rfc_3066 rfc_3066_str rfc_3066_qname "RFC3066",
        rfc_4646 rfc_4646_str rfc_4646_qname "RFC4646",
        rfc_5646 rfc_5646_str rfc_5646_qname "RFC5646",
        rights_statement rights_statement_str rights_statement_qname "RightsStatement",
        size_or_duration size_or_duration_str size_or_duration_qname "SizeOrDuration",
        standard standard_str standard_qname "Standard",
        tgn_classify tgn_classify_str tgn_classify_qname "TGN",
        udc_classify udc_classify_str udc_classify_qname "UDC",
        uri uri_str uri_qname "URI",
        w3c_dtf w3c_dtf_str w3c_dtf_qname "W3CDTF",
        an_abstract an_abstract_str an_abstract_qname "abstract",
        access_rights access_rights_str access_rights_qname "accessRights",
        accrual_method accrual_method_str accrual_method_qname "accrualMethod",
        accrual_periodicity accrual_periodicity_str accrual_periodicity_qname "accrualPeriodicity",
        accrual_policy accrual_policy_str accrual_policy_qname "accrualPolicy",
        alternative alternative_str alternative_qname "alternative",
        audience audience_str audience_qname "audience",
        available available_str available_qname "available",
        bibliographic_citation bibliographic_citation_str bibliographic_citation_qname "bibliographicCitation",
        conforms_to conforms_to_str conforms_to_qname "conformsTo",
        contributor contributor_str contributor_qname "contributor",
        coverage coverage_str coverage_qname "coverage",
        created created_str created_qname "created",
        creator creator_str creator_qname "creator",
        date date_str date_qname "date",
        date_accepted date_accepted_str date_accepted_qname "dateAccepted",
        date_copyrighted date_copyrighted_str date_copyrighted_qname "dateCopyrighted",
        date_submitted date_submitted_str date_submitted_qname "dateSubmitted",
        description description_str description_qname "description",
        education_level education_level_str education_level_qname "educationLevel",
        extent extent_str extent_qname "extent",
        format format_str format_qname "format",
        has_format has_format_str has_format_qname "hasFormat",
        has_part has_part_str has_part_qname "hasPart",
        has_version has_version_str has_version_qname "hasVersion",
        identifier identifier_str identifier_qname "identifier",
        instructional_method instructional_method_str instructional_method_qname "instructionalMethod",
        is_format_of is_format_of_str is_format_of_qname "isFormatOf",
        is_part_of is_part_of_str is_part_of_qname "isPartOf",
        is_referenced_by is_referenced_by_str is_referenced_by_qname "isReferencedBy",
        is_replaced_by is_replaced_by_str is_replaced_by_qname "isReplacedBy",
        is_required_by is_required_by_str is_required_by_qname "isRequiredBy",
        is_version_of is_version_of_str is_version_of_qname "isVersionOf",
        issued issued_str issued_qname "issued",
        language language_str language_qname "language",
        license license_str license_qname "license",
        mediator mediator_str mediator_qname "mediator",
        medium medium_str medium_qname "medium",
        modified modified_str modified_qname "modified",
        provenance provenance_str provenance_qname "provenance",
        publisher publisher_str publisher_qname "publisher",
        references references_str references_qname "references",
        relation relation_str relation_qname "relation",
        replaces replaces_str replaces_qname "replaces",
        requires requires_str requires_qname "requires",
        rights rights_str rights_qname "rights",
        rights_holder rights_holder_str rights_holder_qname "rightsHolder",
        source source_str source_qname "source",
        spatial spatial_str spatial_qname "spatial",
        subject subject_str subject_qname "subject",
        temporal temporal_str temporal_qname "temporal",
        title title_str title_qname "title",
        a_type a_type_str a_type_qname "type",
        valid valid_str valid_qname "valid",
    });
    vocabulary!(out, foaf, "foaf", "http://xmlns.com/foaf/0.1/", {
        agent agent_str agent_qname "Agent",
        person person_str person_qname "Person",
        name name_str name_qname "name",
        title title_str title_qname "title",
        img img_str img_qname "img",
        depiction depiction_str depiction_qname "depiction",
        depicts depicts_str depicts_qname "depicts",
        family_name family_name_str family_name_qname "familyName",
        given_name given_name_str given_name_qname "givenName",
        knows knows_str knows_qname "knows",
        based_near based_near_str based_near_qname "based_near",
        age age_str age_qname "age",
        made made_str made_qname "made",
        maker maker_str maker_qname "maker",
        primary_topic primary_topic_str primary_topic_qname "primaryTopic",
        primary_topic_of primary_topic_of_str primary_topic_of_qname "isPrimaryTopicOf",
        project project_str project_qname "Project",
        organization organization_str organization_qname "Organization",
        group group_str group_qname "Group",
        member member_str member_qname "member",
        document document_str document_qname "Document",
        image image_str image_qname "Image",
        nick nick_str nick_qname "nick",
        mbox mbox_str mbox_qname "mbox",
        homepage homepage_str homepage_qname "homepage",
        weblog weblog_str weblog_qname "weblog",
        openid openid_str openid_qname "openid",
        jabber_id jabber_id_str jabber_id_qname "jabberID",
        mbox_sha1sum mbox_sha1sum_str mbox_sha1sum_qname "mbox_sha1sum",
        interest interest_str interest_qname "interest",
        topic_interest topic_interest_str topic_interest_qname "topic_interest",
        topic topic_str topic_qname "topic",
        page page_str page_qname "page",
        workplace_homepage workplace_homepage_str workplace_homepage_qname "workplaceHomepage",
        work_info_homepage work_info_homepage_str work_info_homepage_qname "workInfoHomepage",
        school_homepage school_homepage_str school_homepage_qname "schoolHomepage",
        publications publications_str publications_qname "publications",
        current_project current_project_str current_project_qname "currentProject",
        past_project past_project_str past_project_qname "pastProject",
        account account_str account_qname "account",
        online_account online_account_str online_account_qname "OnlineAccount",
        account_name account_name_str account_name_qname "accountName",
        account_service_homepage account_service_homepage_str account_service_homepage_qname "accountServiceHomepage",
        personal_profile_document personal_profile_document_str personal_profile_document_qname "PersonalProfileDocument",
        tipjar tipjar_str tipjar_qname "tipjar",
        sha1 sha1_str sha1_qname "sha1",
        thumbnail thumbnail_str thumbnail_qname "thumbnail",
        logo logo_str logo_qname "logo",
    });
    vocabulary!(out, geo, "geo", "http://www.w3.org/2003/01/geo/wgs84_pos#", {
        spatial_thing spatial_thing_str spatial_thing_qname "SpatialThing",
        temporal_thing temporal_thing_str temporal_thing_qname "TemporalThing",
        event event_str event_qname "Event",
        point point_str point_qname "Point",
        lat lat_str lat_qname "lat",
        location location_str location_qname "location",
        long long_str long_qname "long",
        alt alt_str alt_qname "alt",
        lat_long lat_long_str lat_long_qname "lat_long",
    });
    vocabulary!(out, owl, "owl", "http://www.w3.org/2002/07/owl#", {
        thing thing_str thing_qname "Thing",
        nothing nothing_str nothing_qname "Nothing",
        intersection_of intersection_of_str intersection_of_qname "intersectionOf",
        union_of union_of_str union_of_qname "unionOf",
        complement_of complement_of_str complement_of_qname "complementOf",
        one_of one_of_str one_of_qname "oneOf",
        restriction restriction_str restriction_qname "Restriction",
        on_property on_property_str on_property_qname "onProperty",
        on_class on_class_str on_class_qname "onClass",
        on_datatype on_datatype_str on_datatype_qname "onDatatype",
        all_values_from all_values_from_str all_values_from_qname "allValuesFrom",
        some_values_from some_values_from_str some_values_from_qname "someValuesFrom",
        has_value has_value_str has_value_qname "hasValue",
        has_self has_self_str has_self_qname "hasSelf",
        cardinality cardinality_str cardinality_qname "cardinality",
        qualified_cardinality qualified_cardinality_str qualified_cardinality_qname "qualifiedCardinality",
        max_cardinality max_cardinality_str max_cardinality_qname "maxCardinality",
        max_qualified_cardinality max_qualified_cardinality_str max_qualified_cardinality_qname "maxQualifiedCardinality",
        min_cardinality min_cardinality_str min_cardinality_qname "minCardinality",
        min_qualified_cardinality min_qualified_cardinality_str min_qualified_cardinality_qname "minQualifiedCardinality",
        datatype_complement_of datatype_complement_of_str datatype_complement_of_qname "datatypeComplementOf",
        with_restrictions with_restrictions_str with_restrictions_qname "withRestrictions",
        equivalent_class equivalent_class_str equivalent_class_qname "equivalentClass",
        disjoint_with disjoint_with_str disjoint_with_qname "disjointWith",
        all_disjoint_classes all_disjoint_classes_str all_disjoint_classes_qname "AllDisjointClasses",
        members members_str members_qname "members",
        disjoint_union_of disjoint_union_of_str disjoint_union_of_qname "disjointUnionOf",
        property_chain_axiom property_chain_axiom_str property_chain_axiom_qname "propertyChainAxiom",
        equivalent_property equivalent_property_str equivalent_property_qname "equivalentProperty",
        property_disjoint_with property_disjoint_with_str property_disjoint_with_qname "propertyDisjointWith",
        all_disjoint_properties all_disjoint_properties_str all_disjoint_properties_qname "AllDisjointProperties",
        inverse_of inverse_of_str inverse_of_qname "inverseOf",
        functional_property functional_property_str functional_property_qname "FunctionalProperty",
        inverse_functional_property inverse_functional_property_str inverse_functional_property_qname "InverseFunctionalProperty",
        reflexive_property reflexive_property_str reflexive_property_qname "ReflexiveProperty",
        irreflexive_property irreflexive_property_str irreflexive_property_qname "IrreflexiveProperty",
        symmetric_property symmetric_property_str symmetric_property_qname "SymmetricProperty",
        asymmetric_property asymmetric_property_str asymmetric_property_qname "AsymmetricProperty",
        transitive_property transitive_property_str transitive_property_qname "TransitiveProperty",
        same_as same_as_str same_as_qname "sameAs",
        different_from different_from_str different_from_qname "differentFrom",
        all_different all_different_str all_different_qname "AllDifferent",
        negative_property_assertion negative_property_assertion_str negative_property_assertion_qname "NegativePropertyAssertion",
        source_individual source_individual_str source_individual_qname "sourceIndividual",
        assertion_property assertion_property_str assertion_property_qname "assertionProperty",
        target_individual target_individual_str target_individual_qname "targetIndividual",
        target_value target_value_str target_value_qname "targetValue",
        has_key has_key_str has_key_qname "hasKey",
        class class_str class_qname "Class",
        object_property object_property_str object_property_qname "ObjectProperty",
        datatype_property datatype_property_str datatype_property_qname "DatatypeProperty",
        annotation_property annotation_property_str annotation_property_qname "AnnotationProperty",
        named_individual named_individual_str named_individual_qname "NamedIndividual",
        axiom axiom_str axiom_qname "Axiom",
        annotated_source annotated_source_str annotated_source_qname "annotatedSource",
        annotated_property annotated_property_str annotated_property_qname "annotatedProperty",
        annotated_target annotated_target_str annotated_target_qname "annotatedTarget",
        version_info version_info_str version_info_qname "versionInfo",
        deprecated deprecated_str deprecated_qname "deprecated",
        backward_compatible_with backward_compatible_with_str backward_compatible_with_qname "backwardCompatibleWith",
        incompatible_with incompatible_with_str incompatible_with_qname "incompatibleWith",
        prior_version prior_version_str prior_version_qname "priorVersion",
        ontology ontology_str ontology_qname "Ontology",
        version version_str version_qname "version",
        imports imports_str imports_qname "imports",
        rational rational_str rational_qname "rational",
        real real_str real_qname "real",
        distinct_members distinct_members_str distinct_members_qname "distinctMembers",
        ontology_property ontology_property_str ontology_property_qname "OntologyProperty",
        deprecated_class deprecated_class_str deprecated_class_qname "DeprecatedClass",
        deprecated_property deprecated_property_str deprecated_property_qname "DeprecatedProperty",
    });
    vocabulary!(out, rdf, "rdf", "http://www.w3.org/1999/02/22-rdf-syntax-ns#", {
        html html_str html_qname "HTML",
        lang_string lang_string_str lang_string_qname "langString",
        plain_literal plain_literal_str plain_literal_qname "PlainLiteral",
        a_type a_type_str a_type_qname "type",
        property property_str property_qname "Property",
        statement statement_str statement_qname "Statement",
        subject subject_str subject_qname "subject",
        predicate predicate_str predicate_qname "predicate",
        object object_str object_qname "object",
        bag bag_str bag_qname "Bag",
        seq seq_str seq_qname "Seq",
        alt alt_str alt_qname "Alt",
        value value_str value_qname "value",
        list list_str list_qname "List",
        nil nil_str nil_qname "nil",
        first first_str first_qname "first",
        rest rest_str rest_qname "rest",
        li li_str li_qname "li",
        xml_literal xml_literal_str xml_literal_qname "XMLLiteral",
        json json_str json_qname "JSON",
        compound_literal compound_literal_str compound_literal_qname "CompoundLiteral",
        language language_str language_qname "language",
        direction direction_str direction_qname "direction",
    });
    vocabulary!(out, rdfs, "rdfs", "http://www.w3.org/2000/01/rdf-schema#", {
        resource resource_str resource_qname "Resource",
        class class_str class_qname "Class",
        literal literal_str literal_qname "Literal",
        data_type data_type_str data_type_qname "Datatype",
        lang_string lang_string_str lang_string_qname "langString",
        html_literal html_literal_str html_literal_qname "HTML",
        xml_literal xml_literal_str xml_literal_qname "XMLLiteral",
        property property_str property_qname "Property",
        range range_str range_qname "range",
        domain domain_str domain_qname "domain",
        subclass_of subclass_of_str subclass_of_qname "subClassOf",
        subproperty_of subproperty_of_str subproperty_of_qname "subPropertyOf",
        label label_str label_qname "label",
        comment comment_str comment_qname "comment",
        container container_str container_qname "Container",
        container_membership_property container_membership_property_str container_membership_property_qname "ContainerMembershipProperty",
        member member_str member_qname "member",
        see_also see_also_str see_also_qname "seeAlso",
        is_defined_by is_defined_by_str is_defined_by_qname "isDefinedBy",
        value value_str value_qname "value",
    });
    vocabulary!(out, skos, "skos", "http://www.w3.org/2004/02/skos/core#", {
        collection collection_str collection_qname "Collection",
        concept concept_str concept_qname "Concept",
        concept_scheme concept_scheme_str concept_scheme_qname "ConceptScheme",
        ordered_collection ordered_collection_str ordered_collection_qname "OrderedCollection",
        alt_label alt_label_str alt_label_qname "altLabel",
        broad_match broad_match_str broad_match_qname "broadMatch",
        broader broader_str broader_qname "broader",
        broader_transitive broader_transitive_str broader_transitive_qname "broaderTransitive",
        change_note change_note_str change_note_qname "changeNote",
        close_match close_match_str close_match_qname "closeMatch",
        definition definition_str definition_qname "definition",
        editorial_note editorial_note_str editorial_note_qname "editorialNote",
        exact_match exact_match_str exact_match_qname "exactMatch",
        example example_str example_qname "example",
        has_top_concept has_top_concept_str has_top_concept_qname "hasTopConcept",
        hidden_label hidden_label_str hidden_label_qname "hiddenLabel",
        history_note history_note_str history_note_qname "historyNote",
        in_scheme in_scheme_str in_scheme_qname "inScheme",
        mapping_relation mapping_relation_str mapping_relation_qname "mappingRelation",
        member member_str member_qname "member",
        member_list member_list_str member_list_qname "memberList",
        narrow_match narrow_match_str narrow_match_qname "narrowMatch",
        narrower narrower_str narrower_qname "narrower",
        narrower_transitive narrower_transitive_str narrower_transitive_qname "narrowerTransitive",
        notation notation_str notation_qname "notation",
        note note_str note_qname "note",
        pref_label pref_label_str pref_label_qname "prefLabel",
        related related_str related_qname "related",
        related_match related_match_str related_match_qname "relatedMatch",
        scope_note scope_note_str scope_note_qname "scopeNote",
        semantic_relation semantic_relation_str semantic_relation_qname "semanticRelation",
        top_concept_of top_concept_of_str top_concept_of_qname "topConceptOf",
    });
    vocabulary!(out, skos::xl, "skosxl", "http://www.w3.org/2008/05/skos-xl#", {
        label label_str label_qname "Label",
        literal_form literal_form_str literal_form_qname "literalForm",
        pref_label pref_label_str pref_label_qname "prefLabel",
        alt_label alt_label_str alt_label_qname "altLabel",
        label_relation label_relation_str label_relation_qname "labelRelation",
    });
    vocabulary!(out, skos::iso, "isothes", "http://purl.org/iso25964/skos-thes#", {
        compound_equivalence compound_equivalence_str compound_equivalence_qname "CompoundEquivalence",
        concept_group concept_group_str concept_group_qname "ConceptGroup",
        preferred_term preferred_term_str preferred_term_qname "PreferredTerm",
        thesaurus_array thesaurus_array_str thesaurus_array_qname "ThesaurusArray",
        micro_thesaurus_of micro_thesaurus_of_str micro_thesaurus_of_qname "microThesaurusOf",
        plus_uf_term plus_uf_term_str plus_uf_term_qname "plusUFTerm",
        plus_use_term plus_use_term_str plus_use_term_qname "plusUseTerm",
        sub_group sub_group_str sub_group_qname "subGroup",
        subordinate_array subordinate_array_str subordinate_array_qname "subordinateArray",
        super_group super_group_str super_group_qname "superGroup",
        super_ordinate super_ordinate_str super_ordinate_qname "superOrdinate",
        broader_generic broader_generic_str broader_generic_qname "broaderGeneric",
        broader_instantial broader_instantial_str broader_instantial_qname "broaderInstantial",
        broader_partitive broader_partitive_str broader_partitive_qname "broaderPartitive",
        narrower_generic narrower_generic_str narrower_generic_qname "narrowerGeneric",
        narrower_instantial narrower_instantial_str narrower_instantial_qname "narrowerInstantial",
        narrower_partitive narrower_partitive_str narrower_partitive_qname "narrowerPartitive",
    });
    vocabulary!(out, skos::term_status, "status", "http://www.w3.org/2003/06/sw-vocab-status/ns#", {
        term_status term_status_str term_status_qname "term_status",
    });
    vocabulary!(out, xsd, "xsd", "http://www.w3.org/2001/XMLSchema#", {
        any_uri any_uri_str any_uri_qname "anyURI",
        base64_binary base64_binary_str base64_binary_qname "base64Binary",
        date date_str date_qname "date",
        date_time date_time_str date_time_qname "dateTime",
        date_time_stamp date_time_stamp_str date_time_stamp_qname "dateTimeStamp",
        day_time_duration day_time_duration_str day_time_duration_qname "dayTimeDuration",
        decimal decimal_str decimal_qname "decimal",
        duration duration_str duration_qname "duration",
        entity entity_str entity_qname "ENTITY",
        g_day g_day_str g_day_qname "gDay",
        g_month g_month_str g_month_qname "gMonth",
        g_month_day g_month_day_str g_month_day_qname "gMonthDay",
        g_year g_year_str g_year_qname "gYear",
        g_year_month g_year_month_str g_year_month_qname "gYearMonth",
        hex_binary hex_binary_str hex_binary_qname "hexBinary",
        id id_str id_qname "ID",
        id_ref id_ref_str id_ref_qname "IDREF",
        id_refs id_refs_str id_refs_qname "IDREFS",
        integer integer_str integer_qname "integer",
        language language_str language_qname "language",
        name name_str name_qname "Name",
        nc_name nc_name_str nc_name_qname "NCName",
        nm_token nm_token_str nm_token_qname "NMTOKEN",
        nm_tokens nm_tokens_str nm_tokens_qname "NMTOKENS",
        non_negative_integer non_negative_integer_str non_negative_integer_qname "nonNegativeInteger",
        non_positive_integer non_positive_integer_str non_positive_integer_qname "nonPositiveInteger",
        normalized_string normalized_string_str normalized_string_qname "normalizedString",
        notation notation_str notation_qname "NOTATION",
        ns ns_str ns_qname "NS",
        positive_integer positive_integer_str positive_integer_qname "positiveInteger",
        q_name q_name_str q_name_qname "QName",
        time time_str time_qname "time",
        token token_str token_qname "token",
        unsigned_byte unsigned_byte_str unsigned_byte_qname "unsignedByte",
        unsigned_int unsigned_int_str unsigned_int_qname "unsignedInt",
        unsigned_long unsigned_long_str unsigned_long_qname "unsignedLong",
        unsigned_short unsigned_short_str unsigned_short_qname "unsignedShort",
        boolean boolean_str boolean_qname "boolean",
        byte byte_str byte_qname "byte",
        double double_str double_qname "double",
        float float_str float_qname "float",
        int int_str int_qname "int",
        long long_str long_qname "long",
        short short_str short_qname "short",
        string string_str string_qname "string",
        year_month_duration year_month_duration_str year_month_duration_qname "yearMonthDuration",
    });
    out
}
