import json,subprocess
prop={'1af8a58':'P10','95ece05':'P10','022c117':'P11','f546b57':'P17','e0c931d':'P10','fe74f05':'P13','5c51646':'P13','6776312':'P13','cfc3e78':'P13','2633548':'P13','fb90a37':'P01','55ca1e5':'P03','b30d3a3':'P05','cba8874':'P07','720ab85':'P09','2e1a83e':'P09','088f83d':'P09','ea18a87':'P10','c48a59a':'P10','54cb6bc':'P08','4857049':'P08','0aa5ff8':'P15','4e76c96':'P16','bf6b11d':'P11','ab15a10':'P11','075d25b':'P11','e927696':'P16','1858770':'P12','11b77f2':'P14','334b197':'P13','43fbb82':'P13','eec11e3':'P13','ca887e7':'P13','36911b4':'P17','6083c40':'P13','973d304':'P10','c7ecd92':'P06','f7313ac':'P15','c4e8714':'P14','1ab805e':'P14','cfbae6c':'P17','cb90641':'P10','6fd69cb':'P01','67f2691':'P12'}
what={
'fb90a37':'num_threads<=0 with few or unknown hardware threads configured zero or a negative number of workers, which omp_set_num_threads rejects',
'55ca1e5':'progress counters were thread_local and survived a loop, so a later loop reported iterations of an earlier (failed) one and could exceed its total',
'b30d3a3':'time limits and reported elapsed times were measured with the wall clock, so a clock adjustment ended a render early or kept it running',
'cba8874':'Film::save returned true although the write, flush or close of the image failed, leaving an incomplete file',
'720ab85':'save_state_to_file returned normally although the stream could not be written or closed',
'2e1a83e':'load_state_from_file destroyed the current assets before it knew that the file could be loaded',
'088f83d':'load_serialized left the name of an asset whose file failed to load registered with a null component',
'ea18a87':'an asset whose construct() threw stayed registered half constructed; replacing one lost the previous asset',
'c48a59a':'media, volumes and scene nodes kept pointers to an asset that had been replaced and destroyed',
'54cb6bc':'several components saved only part of their state, so a restored scene rendered differently or not at all',
'4857049':'saving the subtree of an asset treated references to a sibling whose name has it as prefix as internal',
'0aa5ff8':'random numbers of a seeded render came from a thread_local generator seeded only by the first render of the thread',
'4e76c96':'the termination flag of the BVH build was a plain bool read and written by several threads',
'bf6b11d':'building the acceleration structure of a scene without triangles crashed',
'ab15a10':'the BVH build crashed or hung when hardware concurrency is unknown or a thread could not be started',
'075d25b':'the traversal stack of the BVH overflowed for deep trees',
'e927696':'the severity threshold of the logger was read outside its lock',
'1858770':'a progress message was padded with the white space of an earlier one',
'11b77f2':'load_plugin_directory loaded by bare file name instead of from the directory and stopped at the first broken plugin',
'334b197':'read errors and over-long lines of OBJ and MTL files were ignored, yielding a partial mesh',
'43fbb82':'names longer than the fixed buffer overflowed it',
'eec11e3':'faces that refer to missing vertices were accepted and read out of bounds',
'ca887e7':'a read error in the middle of a texture file yielded a partial texture',
'36911b4':'lm::load, lm::assets and state operations before lm::init dereferenced a null context',
'6083c40':'evaluating one- or two-channel textures read the neighbouring pixels (and past the end)',
'973d304':'Model::underlying with an unknown name threw std::out_of_range instead of returning null',
'c7ecd92':'saving a film while it is being updated stored pixels mixing channels of different updates',
'c4e8714':'comp::create leaked an instance that does not implement the requested interface',
'1ab805e':'ScopedLoadPlugin left the plugins of a partially loaded list loaded and terminated the process when unloading failed',
'cfbae6c':'print_asset_tree dereferenced a null pointer when the library had not been initialised',
'cb90641':'load_serialized registered an asset under a name that no locator can resolve (one that load_asset rejects)',
'6fd69cb':'a loop issued from another thread than the one that initialised the parallel subsystem ran with the default number of threads, so worker ids exceeded num_threads()',
'67f2691':'the end of a progress report was not distinguished from an update: the final message kept the rest of the previous longer one on its row and left the cursor there',
'6776312':'the tinyobjloader plugin dropped the first face after every change of material',
'cfc3e78':'the tinyobjloader plugin ignored read errors and material libraries that cannot be opened, yielding partial models',
'2633548':'the tinyobjloader plugin accepted faces that refer to missing vertices and read out of bounds',
'1af8a58':'set_accel with an unknown name silently removed the acceleration structure, and the next query crashed',
'95ece05':'a primitive whose mesh, material, light, camera or medium is unknown or of another kind was accepted without it',
'022c117':'building a scene without an acceleration structure dereferenced a null pointer',
'f546b57':'progress reporters with a missing or unknown child were initialised and crashed at first use',
'e0c931d':'renderers with an unknown scheduler were loaded and crashed when rendering',
'fe74f05':'polygons with more than four vertices lost all but their first four vertices',
'5c51646':'textures of different files with the same stem shared the contents of the first one',
'f7313ac':'the raycast renderer visualized the uninitialised normal of an environment hit',
}
log=subprocess.run(['git','-C','/repo','log','--format=%h','b40c1b1..HEAD'],capture_output=True,text=True).stdout.split()[::-1]
d={"findings":[],"fixed":["fixed: property=%s %s %s"%(prop[h],h,what[h]) for h in log]}
json.dump(d,open('known_findings.json','w'),indent=1); open('known_findings.json','a').write('\n')
