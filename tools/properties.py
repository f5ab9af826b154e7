PBT = "property-based testing (rapid): "

prop("C01", "Saving a model as PMX and reading it back loses nothing",
     "For every model within the limits of the PMX format, the saved file is a valid PMX file that an independent decoder reads as exactly that model, and loading it gives the same model: vertices, skinning of every kind, faces, textures, materials, bones with IK, morphs of every kind, rigid bodies and joints. This holds at every element count, in particular across the sizes where the width of the file's indices changes. Saving a loaded file again gives the same bytes.",
     "all models the format can represent: any counts (incl. 127/128, 255/256, 32767/32768, 65535/65536 boundaries), names, bone flags, morph kinds, header left by a loaded file",
     "No existing test writes a PMX file at all; the space is the product of bone flags, morph kinds, skinning kinds and six index widths.",
     ["mmd/pmx_writer.go", "mmd/pmx_parser.go", "mmd/mmd.go"],
     [("PMX writer", "mmd/pmx_writer.go"), ("PMX parser", "mmd/pmx_parser.go"), ("index width selection", "mmd/pmx_writer.go")],
     ["bytes written", "document returned by loading them"],
     "mmdc", "the model has elements of at least three kinds (vertices, materials, bones, morphs, bodies, joints) or straddles an index width boundary; distinct by content",
     PBT + "generated models, round trip plus differential decoding by an independent PMX decoder",
     "Generated models up to a few dozen elements plus count sweeps across every index width boundary; oracle: an independently written PMX decoder and equality with the generated model.",
     assumptions=["the reference PMX encoder/decoder in harness/gen follows the published PMX 2.0/2.1 layout"])

prop("C02", "PMX, PMD and VMD files are read as what they encode",
     "A well formed PMX, PMD or VMD file is read as exactly the model or animation it encodes, whatever text encoding, index widths, optional fields and trailing data it uses and however the data arrives in pieces. Animation data comes back grouped per bone and per morph, in frame order, with no key lost.",
     "all files an independent encoder produces: UTF-8/UTF-16LE text, every legal combination of index widths, extended UVs, all bone flags and morph kinds, Shift_JIS names with any padding, arbitrary read chunking",
     "The repository has no MMD test data; nothing exercises these parsers.",
     ["mmd/pmx_parser.go", "mmd/pmd_parser.go", "mmd/vmd_parser.go", "mmd/base_parser.go"],
     [("PMX parser", "mmd/pmx_parser.go"), ("PMD parser", "mmd/pmd_parser.go"), ("VMD parser", "mmd/vmd_parser.go")],
     ["parsed document", "animation channels"],
     "mmdc", "PMX: elements of at least three kinds; PMD: vertices and bones; VMD: more than one bone and morph key; distinct by content",
     PBT + "files generated by an independent reference encoder, parsed and compared with the generated model",
     "Reference encoders written from the format descriptions; every field of the parsed document is compared.",
     assumptions=["the reference encoders in harness/gen follow the published PMX, PMD and VMD layouts"])

prop("C03", "Saving a document as MQO or MQOZ and loading it again loses nothing",
     "Any document saved as .mqo (with its .mqx companion) or .mqoz and loaded again has the same scene, materials with shader settings, objects with their placement, vertices, faces, UVs, normals and ids, bones with weights, morphs and physics data, up to the printed precision of material colours. Saving what was loaded changes nothing more, neighbouring files do not affect each other, and repeated object or material names come out unique without touching names that already were. The written text and XML follow the format, so that a strict reader of its grammar finds the same document in them.",
     "all documents whose names the text format can hold (no double quotes or control characters), any save/load sequence over .mqo and .mqoz",
     "Existing tests never save an MQO file; a round trip must hold for every combination of optional attributes.",
     ["mqo/mqo_writer.go", "mqo/mqo_parser.go", "mqo/mqx_writer.go", "mqo/mqx_parser.go", "mqo/bone_plugin.go", "mqo/morph_plugin.go", "mqo/physics_plugin.go", "mqo/mqo.go"],
     [("text writer", "mqo/mqo_writer.go"), ("text parser", "mqo/mqo_parser.go"), ("companion XML", "mqo/mqx_writer.go"), ("unique names", "mqo/mqo.go")],
     ["document returned by loading the saved file"],
     "mqoc", "the document has at least one face and one material; distinct by content",
     PBT + "generated documents through save/load histories of up to three generations, equality oracle, and an independent strict reader of the written text and XML",
     "Generated documents; exact comparison except for values the format prints rounded, which are compared to the printed precision.",
     over=("inputs", "histories"),
     assumptions=["names without double quotes, backslashes and control characters", "finite numbers"])

prop("C04", "MQO, MQX and MQOZ files are read as what they encode",
     "A well formed MQO file is read as exactly the document it describes, whether it is UTF-8 or Shift_JIS, with either line ending, with attributes in any order, with texture paths using either separator, with unknown attributes, blocks and thumbnails to be skipped, and however the data arrives in pieces. Bones, weights, morphs and physics come from the companion XML, next to the file or inside the archive.",
     "all texts an independent emitter produces for generated documents and styles",
     "Existing tests contain no MQO file.",
     ["mqo/mqo_parser.go", "mqo/mqx_parser.go"],
     [("tokenising parser", "mqo/mqo_parser.go"), ("code page detection", "mqo/mqo_parser.go"), ("archive loading", "mqo/mqo_parser.go")],
     ["parsed document"],
     "mqoc", "the document has at least one face and one material; distinct by content",
     PBT + "texts generated by an independent emitter over documents and writing styles, parsed and compared",
     "Reference emitter varies encoding, number formats, attribute order, unknown content and read chunking.",
     assumptions=["the reference emitter in harness/gen follows the MQO text format as Metasequoia writes it"])

prop("C05", "FBX files are read as what they encode",
     "A well formed FBX file, binary (any version, 32 or 64 bit headers, compressed or plain arrays, with or without its footer) or ASCII, is read as exactly the node tree it encodes, however the data arrives in pieces. Models, geometries, materials, skins, blend shapes, properties with their defaults from templates, and the connections between them are found by the same relations in both forms, including the older connection-by-name files.",
     "all node trees and scenes an independent FBX encoder/emitter produces: every attribute type, empty and large arrays, nested lists, number formats, comments, arbitrary read chunking",
     "The existing test reads no generated file; the space is attribute types times encodings times nesting.",
     ["fbx/binary_parser.go", "fbx/text_parser.go", "fbx/fbx_node.go", "fbx/fbx_document.go", "fbx/fbx_geometry.go", "fbx/fbx_model.go", "fbx/fbx_material.go", "fbx/fbx_object.go"],
     [("binary parser", "fbx/binary_parser.go"), ("text parser", "fbx/text_parser.go"), ("object graph", "fbx/fbx_document.go"), ("geometry accessors", "fbx/fbx_geometry.go")],
     ["parsed node tree", "models, geometries, materials and their relations"],
     "fbxc", "the file has at least one node with attributes (tree legs) or one model with geometry (scene legs); distinct by content",
     PBT + "files generated by an independent encoder, parsed and compared with the generated tree or scene",
     "Reference encoder for binary versions 6100-7700 and an emitter for ASCII; every attribute of every node is compared.",
     assumptions=["the reference encoder in harness/gen follows the published description of the binary FBX layout"])

prop("C06", "FBX documents that are written read back as the same document",
     "Writing a parsed or programmatically built FBX document and reading the result gives the same node tree with every value unchanged: integers, floating point numbers of both widths, strings, binary data, and arrays including empty ones. Models, geometries, materials and connections added to a new document are all found again with the properties that were set.",
     "all node trees (every attribute type, strings with quotes and line breaks, empty arrays) and build sequences over the construction API",
     "Existing tests never read back what they write.",
     ["fbx/fbx_node.go", "fbx/fbx_document.go", "fbx/fbx_geometry.go", "fbx/fbx_model.go", "fbx/fbx_object.go", "fbx/fbx_material.go"],
     [("text writer", "fbx/fbx_node.go"), ("document construction", "fbx/fbx_document.go"), ("layer elements", "fbx/fbx_geometry.go")],
     ["document read back"],
     "fbxc", "the tree has at least two nodes with attributes; distinct by content",
     PBT + "generated trees, scenes and build sequences, round trip equality",
     "Round trip through the writer; built documents are compared with a model of the calls made.",
     over=("inputs", "histories"))

prop("C07", "Vector, quaternion and matrix operations obey their algebra",
     "Matrix, quaternion, Euler angle and vector operations agree with exact arithmetic up to single precision rounding: products, inverses, composition and decomposition of translation, rotation and scale, conversion between rotations of every order, and application to points all describe the same transformation. Results never depend on sharing memory with the operands.",
     "all finite vectors, unit quaternions, Euler angles of every order (incl. gimbal lock) and non-singular matrices",
     "Existing tests check a handful of fixed values.",
     ["geom/matrix4.go", "geom/quaternion.go", "geom/euler.go", "geom/vector3.go", "geom/vector2.go"],
     [("matrix algebra", "geom/matrix4.go"), ("Euler conversion", "geom/euler.go"), ("quaternions", "geom/quaternion.go")],
     ["returned values"],
     "geomc", "operands are not all zero/identity; distinct by value",
     PBT + "algebraic laws and a double precision reference over generated operands",
     "Double precision reference with forward error bounds; emphasises special angles and near-degenerate values.")

prop("C08", "Polygons are triangulated without holes, overlaps or flipped parts",
     "Splitting a simple polygon with n corners in any plane yields n-2 triangles made of its own corners that have the polygon's orientation, do not overlap and together cover exactly its area. Convex, concave and nearly collinear outlines behave alike, and the result does not depend on where the polygon lies or how it is oriented in space.",
     "all simple planar polygons (convex, star shaped, comb, spiral and random simple outlines) under rigid motions and rotation of the starting corner",
     "Two fixed polygons are tested.",
     ["geom/utils.go"],
     [("ear clipping", "geom/utils.go")],
     ["triangles returned"],
     "geomc", "the polygon has at least four corners; distinct by coordinates",
     PBT + "generated simple polygons, area/overlap/orientation invariants and metamorphic rigid motions",
     "Generators include concave outlines, collinear corners and translated/rotated planes; oracle is exact area and coverage sampling in double precision.")

prop("C14", "Converting an FBX scene keeps geometry, materials, skinning and shapes",
     "Converting an FBX scene to an MQO document gives one object per model in hierarchy order (limb nodes and trees without geometry only on request), with every polygon, UV, normal and material assignment kept (a polygon whose material does not exist has none) and vertices placed by the model's world transformation (translation, pre-rotation, rotation and scaling of it and its parents) in the document's axes and units. Materials keep colours, opacity and textures; clusters become bones whose weights refer to the right vertices; blend shapes become morph targets whose vertices move by the stored offsets. Options restrict the result to what they select and change nothing else.",
     "all scenes of the reference generator: model trees with any translation, rotation and scaling, all layer mappings, skins with any cluster transforms, blend shapes, binary or ASCII",
     "No existing test runs this conversion.",
     ["converter/fbx2mqo.go", "fbx/fbx_geometry.go", "fbx/fbx_model.go"],
     [("scene conversion", "converter/fbx2mqo.go"), ("layer element mapping", "fbx/fbx_geometry.go"), ("model transforms", "fbx/fbx_model.go")],
     ["converted document"],
     "convc", "the scene has at least one model with geometry; distinct by content",
     PBT + "generated FBX scenes encoded to files, converted and compared with a double precision reference of the scene",
     "Scenes of up to a handful of models with every mapping mode; tolerance derived from the size of the transforms.")

prop("C20", "Editing operations move every part of a document consistently",
     "Transforming a document moves vertices, bones, colliders, joints, placements and normals by the same transformation; setting a placement or rotation and reading it back describes the same placement, and world placement follows the object hierarchy. Applying a morph moves its base (and the base colours of its materials) by the given share towards the target while other targets keep their offset; turning a limb to the T pose rotates exactly the vertices, bones and colliders below it in proportion to their weights. Triangulating, cloning, flipping and filling in normals or ids keep everything they are not meant to change.",
     "all documents, transformations with rotation and positive scale, morph values, bone trees listed parents first",
     "Existing tests do not touch these operations.",
     ["mqo/utils.go", "mqo/mqo.go", "mqo/bone_plugin.go", "mqo/morph_plugin.go", "mqo/physics_plugin.go"],
     [("document transform", "mqo/utils.go"), ("placement", "mqo/mqo.go"), ("limb rotation", "mqo/bone_plugin.go"), ("morph application", "mqo/morph_plugin.go")],
     ["document after the operation"],
     "mqoc", "per leg: the document has faces, bones with a child, or a morph target to act on; distinct by content",
     PBT + "generated documents and operations against a double precision reference model",
     "One leg per operation; each compares the whole document before and after with a reference computed in double precision.")

prop("C09", "Every exported glTF file is structurally valid and reproducible",
     "Whatever MQO document and options are converted, the resulting glTF file obeys the format: every index refers to an existing element, accessors stay inside their buffer views and views inside their buffers with the required alignment, component types and counts agree with their use, POSITION bounds equal the data, the node graph is a forest reached from the scene, joints and weights are consistent, all attributes and morph targets of a mesh have equal counts, and every extension that is used is declared. Converting the same document again gives the same bytes.",
     "all MQO documents of the generator (hierarchies, hidden and empty objects, faces without material, seams, bones, morphs, physics, textures of all kinds) and all option combinations",
     "No existing test runs this exporter.",
     ["converter/mqo2gltf.go"],
     [("document assembly", "converter/mqo2gltf.go"), ("mesh export", "converter/mqo2gltf.go ConvertObject")],
     ["encoded GLB bytes"],
     "convc", "the document has at least one face; distinct by content and options",
     PBT + "generated models and options, exported, encoded to GLB and checked by an independent glTF reader and validator; byte-wise repeatability",
     "The validator (harness/gltfx) is written from the glTF 2.0 specification and shares no code with the repository or its glTF library.")

prop("C10", "Exported glTF meshes show exactly the faces of the MQO document",
     "Every visible object becomes a node, at the place its depth gives it in the hierarchy, whose triangles tile exactly the object's faces with reversed winding, material by material, scaled by the option; texture coordinates of every corner and given or smoothed normals are kept, and faces of ignored materials, lines and hidden objects are left out. Morph targets become named targets with the scaled offsets of their vertices. Objects sharing geometry show the same triangles whether or not geometry is reused, and lights are exported at the place of their object.",
     "all MQO documents of the generator and all option combinations, including objects with shared geometry keys and lights",
     "No existing test runs this exporter.",
     ["converter/mqo2gltf.go", "mqo/utils.go"],
     [("mesh export", "converter/mqo2gltf.go ConvertObject"), ("hierarchy and shared geometry", "converter/mqo2gltf.go Convert"), ("normals and triangulation", "mqo/utils.go")],
     ["triangles, nodes, targets and lights of the exported file"],
     "convc", "the document has at least one face; distinct by content and options",
     PBT + "generated models, exported geometry compared with the source faces through an independent reader (edge balance, corner attributes, placement)",
     "Vertices are distinct points so triangles can be matched by position; tiling is decided by the balance of directed edges and triangle counts.")

prop("C11", "Exported glTF skins deform with the weights and rest pose of the model",
     "Every bone becomes a node at its position below its parent bone (bones with no or an unknown parent are roots). Every object with bone weights gets a skin whose inverse bind matrices undo the rest pose, and each of its vertices, including those duplicated at seams, keeps its weights: all of them if there are at most four, otherwise the four largest rescaled to sum to one. Rigid bodies, when asked for, become physics of the bone or object they belong to, with masses, shapes and offsets in scaled units.",
     "all generated skeletons (any order of bones, ids and vertex ids, up to six influences), several skinned objects, all options",
     "No existing test runs this exporter.",
     ["converter/mqo2gltf.go", "mqo/bone_plugin.go", "mqo/physics_plugin.go"],
     [("weights", "converter/mqo2gltf.go getWeights"), ("skins", "converter/mqo2gltf.go addSkin"), ("physics", "converter/mqo2gltf.go addPhysicsBody")],
     ["joint nodes, skins, JOINTS_0 and WEIGHTS_0, BLENDER_physics"],
     "convc", "at least one exported object is skinned; distinct by content",
     PBT + "generated skinned models, exported skins compared with the source weights and rest pose through an independent reader",
     "Weights of each skinned vertex sum to 100 in the generator.")

prop("C26", "Exported glTF materials keep colours, transparency, shading and textures",
     "Each used material is exported once, in order, with its name, colour, double sidedness, metallic and roughness values, emission (scaled to at most one) and alpha mode; materials of the glTF shader keep their parameters, maps and extensions, and constant or unlit materials are marked unlit. With alpha detection a material becomes blended exactly when the part of its texture that is used has transparency. Textures that exist are stored once and decode to the same picture (byte for byte when not re-encoded), and size options bound the resolution; missing textures are left out.",
     "all generated materials, PNG, JPEG, BMP and TGA textures (paletted, grey, alpha) in nested or absolute paths, all options",
     "No existing test runs this exporter.",
     ["converter/mqo2gltf.go", "mqo/mqo.go"],
     [("material conversion", "converter/mqo2gltf.go convertMaterial"), ("texture storage and scaling", "converter/mqo2gltf.go addTexture, scaleTexture"), ("alpha detection", "converter/mqo2gltf.go hasAlpha")],
     ["materials and images of the exported file"],
     "convc", "at least one material is exported; distinct by materials and options",
     PBT + "generated materials and picture files, exported materials and decoded images compared with the source",
     "Pictures up to 9x9 pixels; when a texture is scaled only its size is compared.")

prop("C12", "Converting an MMD model to MQO keeps geometry, bones, weights and morphs",
     "Converting an MMD model to an MQO document keeps every triangle with its material, its vertices in right handed axes (Z negated, not scaled), texture coordinates and normals, and every material's name, colour, shininess, double sidedness, edge and texture. Bones keep name, layer, position, parent (or, for known bones above the influence threshold, the bone they inherit from), movability and IK chain; each vertex keeps its bone weights. Vertex and UV morphs become hidden targets displaced from their base by the stored offsets, material morphs become extra materials. Rigid bodies and joints keep shape, size, place, masses, groups, damping and the bones or bodies they connect.",
     "all MMD models of the generator: every weight type, morphs of every kind and panel, bones in any order, rigid bodies of every shape, all option combinations",
     "No existing test runs this conversion.",
     ["converter/mmd2mqo.go", "mqo/bone_plugin.go", "mqo/morph_plugin.go", "mqo/physics_plugin.go"],
     [("model conversion", "converter/mmd2mqo.go"), ("bone weights", "mqo/bone_plugin.go")],
     ["converted document"],
     "convc", "the model has at least one face; distinct by content and options",
     PBT + "generated MMD models converted and compared with a direct reading of the source model",
     "Every vertex, face, bone weight, morph offset and rigid body of the result is compared.")

prop("C13", "Converting an MQO document to MMD keeps geometry, bones, weights and morphs",
     "Converting an MQO document to an MMD model keeps every visible convex face as triangles with its material (faces without one get an extra material), positions (scaled, in left handed axes), texture coordinates and given or smoothed normals, and every material's colours and texture. Bones keep name, position and parent and can be seen and turned, and each vertex keeps up to four weights normalised to one; morph targets become vertex morphs with the scaled offsets; rigid bodies keep shape, mass and bone. All indices in the result are valid, and an MMD model converted to MQO and back describes the same model.",
     "all MQO documents of the generator with bones, morphs, physics and hidden objects; all MMD models of the generator for the way back",
     "No existing test runs this conversion.",
     ["converter/mqo2mmd.go", "converter/mmd2mqo.go"],
     [("document conversion", "converter/mqo2mmd.go"), ("return trip", "converter/mmd2mqo.go")],
     ["converted model"],
     "convc", "the source has at least one face; distinct by content",
     PBT + "generated documents converted and compared with a reference reading; round trip PMX to MQO to PMX",
     "Legs: direct comparison with the source document, and round trip of MMD models.")

prop("C17", "Scaling a glTF model scales everything that has a length",
     "Scaling a glTF document multiplies by the factor of its axis every length it holds: mesh positions, morph target offsets, node translations (also of nodes placed by a matrix), animated translations and the offsets of inverse bind matrices, each exactly once however often accessors, buffer views, meshes or skins are shared or interleaved. The scene as displayed, skinning and morphs included, is the original one scaled; normals, texture coordinates, indices, weights, joint numbers, rotations, images and all other data stay as they were, and accessor bounds stay exact.",
     "all glTF documents of the generator (one or several buffers, interleaved or shared views, sparse accessors, node matrices, skins, targets, animations), uniform factors, and per axis factors for documents without rotations",
     "No existing test runs this code.",
     ["gltfutil/gltf_utils.go", "gltfutil/gltf_joint.go"],
     [("scaling", "gltfutil/gltf_utils.go")],
     ["document after scaling, evaluated by an independent reader"],
     "convc", "the document displays at least one primitive; distinct by content and factor",
     PBT + "generated glTF files, scaled and compared through an independent scene evaluator (metamorphic relation: display(scale(doc)) = scale(display(doc)))",
     "Cameras and extension data are not generated.")

prop("C18", "Packing a glTF document into one file keeps its data and appearance",
     "Making a glTF document a single file merges its buffers into one with the bytes of every accessor and image unchanged, and embeds every external image that can be found, byte for byte and with the right type, leaving missing ones as they were. Widening joint indices keeps their values and all other data. Removing the rotations of joints gives joints without rotation at the same positions, leaves other nodes their rotation, and keeps the rest pose appearance of every mesh. The result is always a valid document, also after being written and read again.",
     "all glTF documents of the generator with uniform node scales: several buffers, shared and interleaved views, sparse accessors, images next to the file, in folders with escaped names, as data URI, in views or missing; byte and short joints; joints with meshes below them",
     "No existing test runs this code.",
     ["gltfutil/gltf_utils.go", "gltfutil/gltf_joint.go"],
     [("single file", "gltfutil/gltf_utils.go ToSingleFile"), ("joint widening", "gltfutil/gltf_joint.go FixJointComponentType"), ("joint rotations", "gltfutil/gltf_joint.go ResetJointMatrix")],
     ["document in memory and after saving and loading"],
     "convc", "the document displays at least one primitive; distinct by content",
     PBT + "generated glTF files packed and compared with the original through an independent reader and scene evaluator",
     "Two legs: single file with widened joints, and joint reset.")

prop("C19", "VRM settings are applied to the nodes, targets and materials they name",
     "Preparing a glTF document as VRM applies its configuration, own settings before those of the preset: a bone is the first named node that exists and has no mesh (an empty list leaves it out; otherwise required bones fall back to a node of their name), the mapped head is the first person bone, a morph setting binds the target of that name or index, all other targets are exported on request, material settings (by name, else *) set unlit, alpha mode and alpha, spring groups hold the matching nodes so that no node swings twice, and colliders sit on their node. Dynamic physics chains become springs and static spheres and capsules colliders when asked for. Every reference in the result is valid, unfound names and missing required bones are reported or skipped without failing, the result is the same every time, and a finished VRM prepared again keeps its metadata, bones, shapes and springs.",
     "all glTF documents of the generator with all generated configurations, with the mmd preset, own preset files, missing presets and a second pass; all MQO models with physics",
     "No existing test runs this code on generated models.",
     ["converter/vrmconfig.go", "vrm/vrm.go", "vrm/vrm_extension.go"],
     [("configuration", "converter/vrmconfig.go applyConfigInternal"), ("presets", "converter/vrmconfig.go MergePreset, LoadVRMConfig"), ("physics", "converter/vrmconfig.go DetectSpringBones, ConvertColliders")],
     ["VRM extension and materials of the written file"],
     "convc", "the document has nodes and the configuration is not empty (config leg), or has physics bodies (physics leg); distinct by content",
     PBT + "generated documents and configurations; the written VRM extension is compared with a reference reading of the configuration",
     "Node names are unique in the generator; if several meshes have a target of the same name any of them may be bound.")

prop("C21", "VMD motions pose the exported glTF skeleton as they pose the MMD model",
     "Adding a VMD motion to an exported model gives one valid animation whose channels have exactly the key frames of their bone at 30 frames per second, in file order independent and repeatable form. At every key frame each bone, and each vertex skinned to it, is where the MMD bone hierarchy with the key's translation and rotation puts it (axes mirrored, 80 mm per unit), also when the model was turned by 180 degrees or its arms were straightened. Morph keys become target weights of the mesh that has the target, interpolated linearly where morphs have different frames; bones and morphs the model lacks are ignored.",
     "all generated skeletons (any order and depth), motions with common or different frames, samples in any order, any subset of bones turned, weights below 0 and above 1",
     "No existing test runs this code.",
     ["converter/glbanim.go", "mmd/vmd_parser.go", "mqo/bone_plugin.go"],
     [("bone channels", "converter/glbanim.go addBoneChannels"), ("morph channels", "converter/glbanim.go addMorphChannels"), ("channel order", "mmd/vmd_parser.go GetBoneChannels")],
     ["animation of the exported file, evaluated by an independent reader"],
     "convc", "some frame poses the whole skeleton or some morph is animated; distinct by model and motion",
     PBT + "generated skeletons and motions; poses evaluated from the exported file compared with forward kinematics of the source",
     "Between key frames MMD uses curves that are not exported, so only key frames are compared. Each bone has at most one sample per frame and unit rotations. With straightened arms every bone has keys and only vertices of a single bone are compared.")

prop("C25", "Converting a glTF scene to MQO keeps its triangles, materials and joints",
     "Converting a glTF document to MQO gives one visible object for every node with a mesh, in node order, named like the mesh and holding exactly its triangles (of all primitives, indexed or not) at the place the node hierarchy gives them, facing the same way, with their texture coordinates and material (or none). Materials keep order, name, colour, emission, double sidedness, metallic and roughness values, alpha mode, cutoff and the path of their external texture. The joints of skins, and all nodes below a given skeleton root, become bones at their position below the nearest ancestor that is a bone.",
     "all glTF documents of the generator: several primitives and buffers, shared and interleaved views, sparse accessors, matrices, mirrored nodes, primitives of other modes (left out), missing materials",
     "No existing test runs this conversion.",
     ["converter/gltf2mqo.go", "gltfutil/gltf_joint.go"],
     [("meshes", "converter/gltf2mqo.go convertMesh"), ("materials", "converter/gltf2mqo.go convertMaterial"), ("bones", "converter/gltf2mqo.go convertBones")],
     ["converted document"],
     "convc", "the document has at least one triangle; distinct by content",
     PBT + "generated glTF files converted and compared with an independent scene evaluator",
     "Skins undo the rest pose exactly (meshes are converted in bind pose); units are not changed.")

prop("C15", "Unity packages and projects open as exactly their assets, and stay contained",
     "Opening a .unitypackage file (entries in any order, with or without directory entries or a ./ prefix, pathname files with or without a second line), an extracted package directory or a project directory gives exactly its assets: each is found by GUID and by path, opens with exactly its content, and its metadata gives its GUID and the names of its sub-objects; unknown GUIDs and paths give nothing. Opening changes nothing in the source, writes only inside its own temporary directory whatever names (../, absolute, links) an archive holds, and leaves nothing there after Close or after a failed open; a damaged or foreign file is refused or complete, never partial.",
     "all asset sets, layouts and archives of the generator, archives cut at any byte, with any bit changed, or with entries that point outside",
     "The existing tests open one package and look at nothing.",
     ["unity/unity_assets.go"],
     [("package", "unity/unity_assets.go OpenPackage, extractPackage, scanPackage"), ("project", "unity/unity_assets.go scanAssets"), ("metadata", "unity/unity_assets.go GetMetaFile, GetRecycleNameByFileID")],
     ["listed assets", "file contents", "file system before and after"],
     "unityc", "more than one asset, or a hostile or damaged archive; distinct by content",
     PBT + "generated archives and directories against the asset list they were made from, and a snapshot of the file system before and after",
     "Every name in a hostile archive leads into the case's own scratch directory. Bit changes inside the archive are only checked for containment: the compressed stream's checksum is not verified by the code.")

prop("C16", "Unity scenes convert to MQO with every object, mesh and material in place",
     "Loading a Unity scene from a package (by name where it holds several) or project and converting it gives one object per game object with the hierarchy, name, local transformation (Z mirrored, scaled) and visibility of the scene, prefab instances expanded with nested prefabs, their overrides and the objects added to them. Its faces are exactly those of the referenced built-in or FBX mesh (only the referenced model) at the object's world position, facing the same way, with tiled and offset texture coordinates and the renderer's materials (name, colours, textures, saved once with their content). Lights keep type, colour, intensity, range and cone in the form of KHR_lights_punctual; colliders become one body per object with their position, size and physical values. The built-in shapes are closed, outward, of Unity's size. Documents may come in any order; missing references, incomplete documents, prefabs that contain themselves and unknown components do not crash it.",
     "all generated scenes: trees of objects with all transformations, up to three levels of prefabs and variants, FBX files of several models and units, CRLF and wrapped lines, files with lines, values or documents missing",
     "The existing tests only open packages; no scene is converted.",
     ["converter/unity2mqo.go", "unity/unity_scene.go", "unity/unity.go", "unity/unity_components.go", "unity/unity_material.go", "unity/unity_builtin.go", "unity/unity_yaml.go"],
     [("scene loading", "unity/unity_scene.go LoadSceneAsset"), ("references", "unity/unity.go GetElement2, GetTransform"), ("conversion", "converter/unity2mqo.go convertObject"), ("colliders", "converter/unity2mqo.go convertRigidBody"), ("shapes", "unity/unity_builtin.go"), ("materials", "unity/unity_material.go LoadMaterial")],
     ["converted document", "saved textures"],
     "unityc", "the scene has a visible mesh (or the shape, broken and cycle legs: every case); distinct by content",
     PBT + "generated Unity projects against a reference expansion of the scene they were written from",
     "Overrides of objects inside nested prefabs (identifiers Unity derives by xor) are not supported by the code and not generated; the order of root objects is free; shape rotation, capsules not along Y and collider sizes under non-uniform or negative scale are not asserted.")

prop("C24", "The command line converts with its options, and fails cleanly",
     "Running modelconv on a readable model writes exactly the requested result: the format is that of -format, else of the output name (any letter case), else the default (.glb for MQO, .mqo otherwise) beside the input, and the model is the one the library gives after the options: scale per axis (80 by default for MMD), -rot180, -chparent, -autotpose, -hide with the objects below, -hidemat, -morph, -alpha and -unlit on the names (exact or with * and ?) they are given and on nothing else, texture, geometry, light and physics options, motions, and for VRM the given configuration, the one beside the input or (MMD) the preset, arms straightened. It changes no input, writes no other file than the result with its parts, and leaves no temporary file. A missing or foreign input, unknown format or option, malformed or unknown value, missing directory or unreadable motion ends with an error message, a non-zero status and no output.",
     "all generated MQO, PMX, PMD, VMD, FBX, glTF and Unity inputs to all formats, all combinations of options, names with spaces, Japanese, dots, # and %",
     "No existing test runs the command.",
     ["cmd/modelconv/main.go", "cmd/modelconv/utils.go", "gltfutil/gltf_utils.go"],
     [("options", "cmd/modelconv/main.go main"), ("loading", "cmd/modelconv/utils.go loadDocument"), ("saving", "cmd/modelconv/main.go saveDocument, saveGltfDocument")],
     ["files after the run", "exit status and output"],
     "clic", "every case: options, input and output names are distinct by content",
     PBT + "the built command run on generated files and options, compared with a reference pipeline of library calls and with a snapshot of the file system",
     "What the library calls do is checked by the other properties; here the command must call them with the right arguments. Names in option patterns have no separators; two -alpha values for one material and cyclic -chparent are not generated; MQO input without the header is read as an empty model and not asserted.",
     cli=True)

prop("C22", "A file that could not be written completely is never reported as saved",
     "Writing MQO, MQX, MQOZ, PMX, FBX, glTF, GLB or VRM reports an error whenever the destination stops accepting data, at whatever byte: in a stream, in a file on a full device or with a size limit, in the plugin file (MQX) or buffer file beside the main file, when the second file cannot be created or closed, or in a directory that does not exist; the command then ends with a non-zero status. A destination with just enough room succeeds and gets every byte.",
     "all generated documents of every format, faults at every byte position, of the main and the second file",
     "No existing test injects faults.",
     ["mqo/mqo_writer.go", "mqo/mqx_writer.go", "mmd/pmx_writer.go", "mmd/mmd.go", "fbx/fbx.go", "gltfutil/gltf_utils.go", "vrm/vrm_writer.go", "cmd/modelconv/main.go"],
     [("MQO", "mqo/mqo_writer.go WriteMQO, Save, SaveMQOZ"), ("PMX", "mmd/pmx_writer.go Write"), ("FBX", "fbx/fbx.go Write, Save"), ("glTF", "gltfutil/gltf_utils.go Save, SaveBinary")],
     ["returned error or exit status"],
     "ioc", "every case; distinct by content and fault",
     PBT + "fault injection at generated positions (failing writers, /dev/full behind a symbolic link in a scratch directory, file size limits)",
     "What is left of the file after an error is not asserted. The command is only run with destinations that accept nothing.",
     cli=True)

prop("C23", "Truncated or unreadable files are reported, never read as a smaller model",
     "Reading a PMX, PMD, VMD, binary or ASCII FBX, MQO, MQOZ, MQX, GLB or glTF file that ends early, or whose stream fails with an error part way, reports an error without crashing, at whatever byte and however the data arrives in pieces; so does a complete file with a truncated part beside it (MQX, .bin). The command then ends with a non-zero status and writes no result. The complete file is accepted. Text formats may end between top level blocks, binary FBX before its footer.",
     "all generated files of every format, every cut position, any sizes of pieces",
     "No existing test cuts files.",
     ["mmd/pmx_parser.go", "mmd/pmd_parser.go", "mmd/vmd_parser.go", "fbx/binary_parser.go", "fbx/text_parser.go", "mqo/mqo_parser.go", "mqo/mqx_parser.go", "gltfutil/gltf_utils.go", "vrm/vrm_parser.go"],
     [("MMD", "mmd/base_parser.go read"), ("FBX", "fbx/binary_parser.go, fbx/text_parser.go"), ("MQO", "mqo/mqo_parser.go skip, skipBlock, Parse"), ("glTF", "gltfutil/gltf_utils.go Load")],
     ["returned error or exit status"],
     "ioc", "every case; distinct by content and cut",
     PBT + "generated files cut at generated positions, ending in end of file or in a read error",
     "PMD files have no optional parts after the morphs here.",
     cli=True)

prop("C27", "Damaged or inconsistent input never crashes or hangs the converter",
     "Whatever bytes are changed, lost, repeated or moved in a PMX, PMD, VMD, binary or ASCII FBX, MQO, MQX, MQOZ, glTF, GLB or VRM file, and whatever its counts, lengths and indices refer to (missing vertices, faces, materials, textures, bones, buffers, cyclic parents), reading and converting it ends with a result or with an error: never with a crash, in an endless loop, or by using memory or time out of proportion to the file.",
     "all generated files of every format, any damaged bytes, words, counts, lengths and references, every output format",
     "No existing test reads a damaged file; the space of damaged files cannot be enumerated by examples.",
     ["mmd/base_parser.go", "mmd/pmx_parser.go", "mmd/pmd_parser.go", "mmd/vmd_parser.go", "fbx/binary_parser.go", "fbx/text_parser.go", "fbx/fbx_document.go", "mqo/mqo_parser.go", "gltfutil/gltf_utils.go", "converter/mmd2mqo.go", "converter/fbx2mqo.go", "converter/gltf2mqo.go", "converter/mqo2gltf.go"],
     [("MMD", "mmd/mmd.go validate, mmd/base_parser.go"), ("FBX", "fbx/binary_parser.go, fbx/fbx_document.go BuildDocument"), ("MQO", "mqo/mqo_parser.go"), ("glTF", "gltfutil/gltf_utils.go Load")],
     ["absence of panics; processor time and memory within generous limits; exit status"],
     "ioc", "every case; distinct by content",
     PBT + "generated files with generated damage: bytes, words, and references of the document before it is encoded; in process parsing under a watchdog and the command under resource limits",
     "Unity projects are covered by C16.",
     cli=True)


prop("C28", "glTF and VRM files keep everything that a conversion does not touch",
     "Converting a glTF, GLB or VRM file to glTF, GLB or VRM keeps all of its data that the conversion does not change: names, hierarchy, scenes, cameras, materials with all their textures, samplers, animations, weights, extras, file information and extensions of any kind. VRM data is kept in every part (metadata, human bones with limits, first person, blend shapes, spring bones, colliders, material properties) with the same values and references; nothing is added that the file does not say, except what a VRM needs: required bones of nodes with their name, material properties and the exporter. Exactly the required bones that are missing are reported.",
     "all generated glTF documents with extras, extensions and VRM data, all ways of writing them",
     "The existing test reads one file that is not part of the repository.",
     ["vrm/vrm.go", "vrm/vrm_extension.go", "vrm/vrm_parser.go", "vrm/vrm_writer.go", "gltfutil/gltf_utils.go", "converter/vrmconfig.go", "cmd/modelconv/main.go"],
     [("VRM data", "vrm/vrm.go, vrm/vrm_extension.go Unmarshal, VRM, ValidateBones"), ("files", "vrm/vrm_parser.go Parse, vrm/vrm_writer.go Write, gltfutil/gltf_utils.go Load, Save, SaveBinary"), ("VRM output", "converter/vrmconfig.go ApplyVRMConfig")],
     ["JSON of the written file"],
     "convc", "documents with nodes; distinct by content",
     PBT + "generated documents with everything the format allows, read, written and compared with the original file by a separate reader",
     "Data is compared as JSON: numbers of the glTF format in single precision, others exactly. VRM fields outside the VRM 0.x schema, and what removing rotations changes, are not asserted. Buffers with escaped names are only read through gltfutil.",
     cli=True)

prop("C29", "The same conversion always gives the same files",
     "Running modelconv again with the same input and options gives the same files, byte for byte, for every input and output format: nothing in the result depends on the order of internal tables, on the time or on what an earlier run or another program left at the place of the result (a result is replaced completely; only saved textures of Unity assets are kept).",
     "all generated MQO, PMX, PMD, VMD, FBX, glTF and Unity inputs to all formats, all combinations of options, an empty or used output directory, longer files in place of the result and its parts",
     "No existing test runs the command, and an order that varies from run to run shows in a single run only by chance.",
     ["cmd/modelconv/main.go", "converter/mmd2mqo.go", "converter/mqo2gltf.go", "converter/glbanim.go", "converter/vrmconfig.go", "converter/unity2mqo.go", "mqo/mqo_writer.go", "mqo/mqx_writer.go", "mmd/pmx_writer.go", "unity/unity_assets.go"],
     [("saving", "cmd/modelconv/main.go saveDocument, saveGltfDocument"), ("weights of MMD models", "converter/mmd2mqo.go setWeight"), ("files", "mqo/mqo_writer.go Save, SaveMQOZ"), ("assets", "unity/unity_assets.go scanPackage, scanAssets")],
     ["files after each run"],
     "clic", "every case: options, input and output names are distinct by content",
     PBT + "the built command run four times on generated files and options, twice more in the original directory and once over longer files (metamorphic relation: all results are equal)",
     "Textures saved by an earlier run of a Unity conversion are kept and not replaced.",
     cli=True)
